From 25e89b28c7012515c114cab7f67fedfcbcb55fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 01/21] fix: use the same byte lanes in every transfer of a
 FIXED burst

---
 cocotbext/axi/axi_master.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..58ad0d0 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -90,6 +90,7 @@ class AxiReadCmd(NamedTuple):
 class AxiReadRespCmd(NamedTuple):
     address: int
     length: int
+    burst: AxiBurstType
     size: int
     cycles: int
     prot: AxiProt
@@ -481,9 +482,13 @@ class AxiMasterWrite(Region, Reset):
             word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
 
             start_offset = cmd.address % self.byte_lanes
-            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1
 
-            cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
+            if cmd.burst == AxiBurstType.FIXED:
+                # all transfers use the same byte lanes
+                cycle_bytes = num_bytes - (cmd.address % num_bytes)
+                cycles = (len(cmd.data) + cycle_bytes-1) // cycle_bytes
+            else:
+                cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
             cur_addr = cmd.address
             offset = 0
@@ -510,10 +515,10 @@ class AxiMasterWrite(Region, Reset):
                 start = cycle_offset
                 stop = cycle_offset+num_bytes
 
-                if k == 0:
+                if k == 0 or cmd.burst == AxiBurstType.FIXED:
                     start = start_offset
                 if k == cycles-1:
-                    stop = end_offset
+                    stop = start + len(cmd.data) - offset
 
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
@@ -578,7 +583,8 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -889,7 +895,12 @@ class AxiMasterRead(Region, Reset):
 
             aligned_addr = (cmd.address // num_bytes) * num_bytes
 
-            cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes
+            if cmd.burst == AxiBurstType.FIXED:
+                # all transfers use the same byte lanes
+                cycle_bytes = num_bytes - (cmd.address % num_bytes)
+                cycles = (cmd.length + cycle_bytes-1) // cycle_bytes
+            else:
+                cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes
 
             burst_list = []
 
@@ -945,7 +956,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.burst, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -1002,13 +1013,14 @@ class AxiMasterRead(Region, Reset):
                 start = cycle_offset
                 stop = cycle_offset+num_bytes
 
-                if first:
+                if first or cmd.burst == AxiBurstType.FIXED:
                     start = start_offset
 
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
                 first = False
 
-- 
2.43.0


From b9cb8bdf2e15f443a5a65e29c5481e82ab19206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 02/21] fix: limit FIXED bursts to 16 transfers

---
 cocotbext/axi/axi_master.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 58ad0d0..6c57634 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -533,6 +533,9 @@ class AxiMasterWrite(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # FIXED bursts are limited to 16 transfers
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
@@ -925,6 +928,9 @@ class AxiMasterRead(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # FIXED bursts are limited to 16 transfers
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
-- 
2.43.0


From 30048560e91a63818003c4b77bb45cf5c7f7f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 03/21] fix: count operations started with init_write and
 init_read right away

---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 16 ++++++++--------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..4cb3dad 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 6c57634..36bb9ee 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -343,8 +343,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -423,11 +427,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -774,8 +773,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -842,11 +844,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..0ab3948 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, data, prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +422,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +459,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From a10fb75d27d70f091754264e6468c38c27af8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 04/21] fix: setting the target of AxiSlave and AxiLiteSlave
 has no effect

---
 cocotbext/axi/axi_slave.py  | 9 +++++++++
 cocotbext/axi/axil_slave.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..347398a 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -345,3 +345,12 @@ class AxiSlave:
 
         self.write_if = AxiSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, val):
+        self.write_if.target = val
+        self.read_if.target = val
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..6f7eb69 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -257,3 +257,12 @@ class AxiLiteSlave:
 
         self.write_if = AxiLiteSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiLiteSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, val):
+        self.write_if.target = val
+        self.read_if.target = val
-- 
2.43.0


From 3634b9c10d0c258c5f3ae7628c2e2e0e6eb08ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 05/21] fix: do not sample prdata in APB write transfers

---
 cocotbext/axi/apb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 4cb3dad..83a877c 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -425,7 +425,8 @@ class ApbMaster(ApbPause, Region, Reset):
 
                 self.bus.penable.value = False
 
-                cycle_data = int(self.bus.prdata.value)
+                # read data is only valid in read transfers
+                cycle_data = 0 if pwrite else int(self.bus.prdata.value)
                 if self.pslverr_present and int(self.bus.pslverr.value):
                     resp = AxiResp.SLVERR
 
-- 
2.43.0


From a663b92fa7f13e7ff17586ceef2bf34f5f9143c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 06/21] fix: define_stream with separately named valid and
 ready signals

---
 cocotbext/axi/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..09a615f 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -447,8 +447,8 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    if valid_signal is not None and valid_signal not in all_signals:
+        signals = signals + [valid_signal]
 
     if ready_signal is None:
         for s in all_signals:
@@ -456,7 +456,7 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals = signals + [ready_signal]
 
     if signal_widths is None:
         signal_widths = {}
-- 
2.43.0


From c780aec0802e72a85ba6a31b4a26760728f7d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 07/21] fix: assert ready again when a full stream sink is
 cleared

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..8583779 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -362,6 +362,7 @@ class AxiStreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
 
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 09a615f..e949583 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -148,6 +148,7 @@ class StreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
 
     def _handle_reset(self, state):
         if state:
-- 
2.43.0


From 3120027514a77e23a2e2c505d98f10174bd6d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 08/21] fix: wait for a transfer in progress when a stream
 source is cleared

---
 cocotbext/axi/axis.py   | 3 ++-
 cocotbext/axi/stream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 8583779..b0800a7 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -360,7 +360,8 @@ class AxiStreamBase(Reset):
             frame.sim_time_end = None
             frame.handle_tx_complete()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.wake_event.set()
         self.queue_occupancy_bytes = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index e949583..3287580 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -146,7 +146,8 @@ class StreamBase(Reset):
         while not self.queue.empty():
             self.queue.get_nowait()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.wake_event.set()
 
-- 
2.43.0


From 2376ed8e1c1e3d5f66066b13a0a5c8c7fc0cf93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:45 +0000
Subject: [PATCH 09/21] fix: normalize and compact AXI stream frames whatever
 sideband values they have

---
 cocotbext/axi/axis.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index b0800a7..3aa54a4 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -95,12 +95,12 @@ class AxiStreamFrame:
         # normalize all sideband signals to the same size as tdata
         n = len(self.tdata)
 
-        if self.tkeep is not None:
+        if self.tkeep is not None and self.tkeep != []:
             self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
         else:
             self.tkeep = [1]*n
 
-        if self.tid is not None:
+        if self.tid is not None and self.tid != []:
             if type(self.tid) in (int, bool):
                 self.tid = [self.tid]*n
             else:
@@ -108,7 +108,7 @@ class AxiStreamFrame:
         else:
             self.tid = [0]*n
 
-        if self.tdest is not None:
+        if self.tdest is not None and self.tdest != []:
             if type(self.tdest) in (int, bool):
                 self.tdest = [self.tdest]*n
             else:
@@ -116,7 +116,7 @@ class AxiStreamFrame:
         else:
             self.tdest = [0]*n
 
-        if self.tuser is not None:
+        if self.tuser is not None and self.tuser != []:
             if type(self.tuser) in (int, bool):
                 self.tuser = [self.tuser]*n
             else:
@@ -125,6 +125,19 @@ class AxiStreamFrame:
             self.tuser = [0]*n
 
     def compact(self):
+        # extend sideband signals to the same size as tdata, unless there are no values
+        n = len(self.tdata)
+
+        for name in ("tkeep", "tid", "tdest", "tuser"):
+            val = getattr(self, name)
+            if type(val) in (int, bool):
+                val = [val]*n
+            elif val:
+                val = val[:n] + [val[-1]]*(n-len(val))
+            else:
+                val = []
+            setattr(self, name, val)
+
         if len(self.tkeep):
             # remove tkeep=0 bytes
             for k in range(len(self.tdata)-1, -1, -1):
-- 
2.43.0


From 9dc4a267e506b778cfdaf715dea63677a7c28778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 10/21] fix: AXI stream sink stays busy after the last transfer
 of a frame when it stops

---
 cocotbext/axi/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 3aa54a4..4dcb3f7 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -746,6 +746,7 @@ class AxiStreamMonitor(AxiStreamBase):
                     self.active_event.set()
 
                     frame = None
+                    self.active = False
             else:
                 self.active = bool(frame)
 
@@ -847,6 +848,7 @@ class AxiStreamSink(AxiStreamMonitor, AxiStreamPause):
                     self.active_event.set()
 
                     frame = None
+                    self.active = False
             else:
                 self.active = bool(frame)
 
-- 
2.43.0


From b9df20deff2105a0fb2988cc4432a43579c669b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 11/21] fix: read_byte and write_byte of memories, regions and
 windows

read_byte only worked for the response objects of the bus masters, and
write_byte passed a list, which memories based on mmap do not accept.
---
 cocotbext/axi/address_space.py | 4 ++--
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..a7fe1b9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -55,7 +55,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From d610abdf80ca30b8e657fe30707d4ba69af687f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 12/21] fix: memories and RAM models of the default size of
 2**64 bytes

len() is limited to sys.maxsize, so that Memory (and with it every RAM model)
could not be created with its default size, and hex dumps of large memories
failed.
---
 cocotbext/axi/memory.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a7fe1b9..03d335e 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,11 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        if isinstance(self.mem, SparseMemory):
+            # len() is limited to sys.maxsize
+            self.size = self.mem.size
+        else:
+            self.size = len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
@@ -92,10 +96,10 @@ class Memory:
         return self.read_qwords(address, 1, byteorder)[0]
 
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self.mem[address:address+length], prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self.mem[address:address+length], prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self.mem[address:address+length], prefix=prefix, offset=address)
-- 
2.43.0


From 5e1fb7b39b9365a2674f6cd91dcabc022fb52240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 13/21] fix: do not allocate beyond the end of pools whose size
 is not a power of two

The allocator handed out blocks at or across the end of such pools.
---
 cocotbext/axi/buddy_allocator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..70b2e6b 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -36,23 +36,29 @@ class BuddyAllocator:
         if size < 1 or size > self.size:
             raise ValueError("size out of range")
 
+        # highest possible address, as the size of the pool may not be a power of two
+        limit = self.size - size
+
         size = max(size, self.min_alloc)
 
         bucket = (size-1).bit_length()
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
+            if not self.free_lists[bucket] or min(self.free_lists[bucket]) > limit:
                 # find free block
                 bucket += 1
                 continue
 
+            self.free_lists[bucket].sort()
+
             while bucket > orig_bucket:
                 # split block
                 block = self.free_lists[bucket].pop(0)
                 bucket -= 1
                 self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
+                self.free_lists[bucket].sort()
 
             if self.free_lists[bucket]:
                 # allocate
-- 
2.43.0


From 5bf521f912acae96ff1160bf957f2bf450ee5be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 14/21] fix: call the object of a peripheral region exactly
 once

A plain (not async) function was called twice, as its result was awaited
first, and a TypeError raised by the object repeated the access.
---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..b324725 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        res = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(res):
+            await res
 
 
 class AddressSpace(Region):
-- 
2.43.0


From fc19728ee3b1af9ad83adcdded4048557a63b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 15/21] fix: absolute addresses of regions and windows created
 before registration

The absolute base address was determined when a region was registered or a
window created, and was wrong when the address space was itself registered
in another address space later on.
---
 cocotbext/axi/address_space.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index b324725..e98129b 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -159,6 +159,11 @@ class Window(MemoryInterface):
     def offset(self):
         return self._offset
 
+    @property
+    def base(self):
+        # the parent may have been registered in an address space later on
+        return self.parent.get_absolute_address(self.offset)
+
     def get_parent_address(self, address):
         if address < 0 or address >= self.size:
             raise ValueError("address out of range")
@@ -184,6 +189,14 @@ class WindowPool(Window):
 class Region(MemoryInterface):
     def __init__(self, size, **kwargs):
         super().__init__(size, **kwargs)
+        self._parent_offset = None
+
+    @property
+    def base(self):
+        if self._parent_offset is not None:
+            # the parent may have been registered in an address space later on
+            return self.parent.get_absolute_address(self._parent_offset)
+        return self._base
 
 
 class MemoryRegion(Region):
@@ -291,8 +304,10 @@ class AddressSpace(Region):
         region._parent = self
         if offset == 0:
             region._base = self.get_absolute_address(base)
+            region._parent_offset = base
         else:
             region._base = None
+            region._parent_offset = None
         self.regions.append((base, size, offset, region))
 
     async def read(self, address, length, **kwargs):
-- 
2.43.0


From db8c76ff6f2b5a6ec2a16e75c94748a0680dc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:42 +0000
Subject: [PATCH 16/21] fix: hex dump of zero bytes

A length of zero dumped everything up to the end of the data.
---
 cocotbext/axi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/utils.py b/cocotbext/axi/utils.py
index 07ea16b..f325039 100644
--- a/cocotbext/axi/utils.py
+++ b/cocotbext/axi/utils.py
@@ -33,14 +33,14 @@ def hexdump_line(data, offset, row_size=16):
 
 
 def hexdump(data, start=0, length=None, row_size=16, prefix="", offset=0):
-    stop = min(start+length, len(data)) if length else len(data)
+    stop = min(start+length, len(data)) if length is not None else len(data)
     for k in range(start, stop, row_size):
         print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
 
 
 def hexdump_lines(data, start=0, length=None, row_size=16, prefix="", offset=0):
     lines = []
-    stop = min(start+length, len(data)) if length else len(data)
+    stop = min(start+length, len(data)) if length is not None else len(data)
     for k in range(start, stop, row_size):
         lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
     return lines
-- 
2.43.0


From 021c5392a5c582209d17496520423dc8fa11be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 17/21] fix: reject IDs that do not fit the ID signals

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 36bb9ee..81a95b7 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -300,7 +300,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -373,7 +373,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -742,7 +742,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -802,7 +802,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From 94e24d833f5026f04cb18413f6a11336e7788851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 18/21] fix: flush exactly the pending APB operation on reset

An operation was lost when reset was asserted before its first transfer, and
the event of an operation that was already complete was set again.
---
 cocotbext/axi/apb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 83a877c..b7205ad 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -339,10 +339,11 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = cmd
 
             length = 0
             pwrite = False
@@ -455,7 +456,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 1e24fbd757c10b7e0c2dbd3494de98e9b87906c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:35 +0000
Subject: [PATCH 19/21] fix: reset signal that is already active when a model
 is created

Only edges of the reset signal were taken into account.
---
 cocotbext/axi/reset.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/reset.py b/cocotbext/axi/reset.py
index 8d11fa3..2d31bd4 100644
--- a/cocotbext/axi/reset.py
+++ b/cocotbext/axi/reset.py
@@ -56,14 +56,15 @@ class Reset:
 
     async def _run_reset(self, reset_signal, active_level):
         while True:
-            await Edge(reset_signal)
             try:
                 level = bool(int(reset_signal.value))
             except ValueError:
-                continue
-            if level:
-                self._ext_reset = active_level
-                self._update_reset()
-            else:
-                self._ext_reset = not active_level
-                self._update_reset()
+                level = None
+            if level is not None:
+                if level:
+                    self._ext_reset = active_level
+                    self._update_reset()
+                else:
+                    self._ext_reset = not active_level
+                    self._update_reset()
+            await Edge(reset_signal)
-- 
2.43.0


From aae9636486cacd4c41802174a0f5af750ae244be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:45 +0000
Subject: [PATCH 20/21] fix: assert_reset of masters and slave models leaves
 their channels running

The channels kept valid and ready asserted, and responses that arrived during
the reset were attributed to later operations.
---
 cocotbext/axi/axi_master.py  | 7 +++++++
 cocotbext/axi/axi_slave.py   | 7 +++++++
 cocotbext/axi/axil_master.py | 7 +++++++
 cocotbext/axi/axil_slave.py  | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 81a95b7..b7b7df4 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -428,6 +428,10 @@ class AxiMasterWrite(Region, Reset):
         return event.data
 
     def _handle_reset(self, state):
+        self.aw_channel.assert_reset(state)
+        self.w_channel.assert_reset(state)
+        self.b_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_write_cr is not None:
@@ -845,6 +849,9 @@ class AxiMasterRead(Region, Reset):
         return event.data
 
     def _handle_reset(self, state):
+        self.ar_channel.assert_reset(state)
+        self.r_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_read_cr is not None:
diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 347398a..eaacb97 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -96,6 +96,10 @@ class AxiSlaveWrite(Reset):
         await self.target.write(address, data)
 
     def _handle_reset(self, state):
+        self.aw_channel.assert_reset(state)
+        self.w_channel.assert_reset(state)
+        self.b_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_write_cr is not None:
@@ -260,6 +264,9 @@ class AxiSlaveRead(Reset):
         return await self.target.read(address, length)
 
     def _handle_reset(self, state):
+        self.ar_channel.assert_reset(state)
+        self.r_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_read_cr is not None:
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index 0ab3948..09c6187 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -208,6 +208,10 @@ class AxiLiteMasterWrite(Region, Reset):
         return event.data
 
     def _handle_reset(self, state):
+        self.aw_channel.assert_reset(state)
+        self.w_channel.assert_reset(state)
+        self.b_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_write_cr is not None:
@@ -460,6 +464,9 @@ class AxiLiteMasterRead(Region, Reset):
         return event.data
 
     def _handle_reset(self, state):
+        self.ar_channel.assert_reset(state)
+        self.r_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_read_cr is not None:
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 6f7eb69..3c6c3b9 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -90,6 +90,10 @@ class AxiLiteSlaveWrite(Reset):
         await self.target.write(address, data)
 
     def _handle_reset(self, state):
+        self.aw_channel.assert_reset(state)
+        self.w_channel.assert_reset(state)
+        self.b_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_write_cr is not None:
@@ -209,6 +213,9 @@ class AxiLiteSlaveRead(Reset):
         return await self.target.read(address, length)
 
     def _handle_reset(self, state):
+        self.ar_channel.assert_reset(state)
+        self.r_channel.assert_reset(state)
+
         if state:
             self.log.info("Reset asserted")
             if self._process_read_cr is not None:
-- 
2.43.0


From 3730c92abf98805642712cca5a054c02099553fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:03 +0000
Subject: [PATCH 21/21] fix: idle and wait of AXI masters on a 64 bit address
 bus

---
 cocotbext/axi/axi_master.py  | 2 +-
 cocotbext/axi/axil_master.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index b7b7df4..dddcbda 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -1076,7 +1076,7 @@ class AxiMaster(Region):
         return self.write_if.init_write(address, data, awid, burst, size, lock, cache, prot, qos, region, user, wuser, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index 09c6187..f2ad334 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -603,7 +603,7 @@ class AxiLiteMaster(Region):
         return self.write_if.init_write(address, data, prot, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
-- 
2.43.0

