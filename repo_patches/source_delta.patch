From dd8c79b493c7f3fa8434d29217c623108d3c7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/56] fix: count BookSim time in NoC cycles instead of
 truncated picoseconds

GetSimTime() returned the SystemC time stamp (ps) as an int, but BookSim adds
delays in cycles to it. Router pipeline delays above one cycle hit
assert(GetSimTime() == time), and after 2^31 ps (2.147 ms) the value turned
negative, which the router takes for 'not scheduled': no flit moved any more.
---
 rad-sim/sim/noc/radsim_noc.cpp |  3 ++-
 rad-sim/sim/noc/radsim_noc.hpp |  1 +
 rad-sim/sim/radsim_utils.cpp   | 10 ++++++----
 rad-sim/sim/radsim_utils.hpp   |  8 ++++++--
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 4bd974f..75e81e9 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -303,6 +303,7 @@ void radsim_noc::Tick() {
   wait();
 
   while (true) {
+    SetSimTime(_noc_cycle++);
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
       map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
@@ -315,7 +316,7 @@ void radsim_noc::Tick() {
     _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
-    _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
+    _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(sc_time_stamp().value()) / 1000);
     wait();
   }
 }
\ No newline at end of file
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index b6328b9..68e2fa7 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -24,6 +24,7 @@ private:
   std::string _portal_slave_name;
   int _noc_id;
   int _num_noc_nodes;
+  int _noc_cycle = 0;                       // Number of elapsed NoC cycles
   BookSimConfig _config;                    // Booksim NoC configuration
   Network *_booksim_noc;                    // Pointers to Booksim network
   tRoutingFunction _routing_func;           // Booksim NoC routing function
diff --git a/rad-sim/sim/radsim_utils.cpp b/rad-sim/sim/radsim_utils.cpp
index 497ed21..97b94fd 100644
--- a/rad-sim/sim/radsim_utils.cpp
+++ b/rad-sim/sim/radsim_utils.cpp
@@ -13,10 +13,12 @@ int GetSimulationCycle() {
   return cycle;
 }
 
-int GetSimTime() { 
-  sc_time t = sc_time_stamp();
-  return t.value();
-}
+// Cycle count of the NoC currently being evaluated
+static int noc_sim_time = 0;
+
+int GetSimTime() { return noc_sim_time; }
+
+void SetSimTime(int cycle) { noc_sim_time = cycle; }
 
 int CalculateXYGridHops(unsigned int src, unsigned int dest, unsigned int grid_dimension) {
   int grid_size = grid_dimension * grid_dimension;
diff --git a/rad-sim/sim/radsim_utils.hpp b/rad-sim/sim/radsim_utils.hpp
index 32e11bc..878b98b 100644
--- a/rad-sim/sim/radsim_utils.hpp
+++ b/rad-sim/sim/radsim_utils.hpp
@@ -20,8 +20,12 @@ int GetSimulationCycle(double period);
 
 int GetSimulationCycle();
 
-// Returns the current simulation cycle number given the NoC clock period
-// int GetSimTime();
+// Returns the time used by the Booksim components, i.e. the current cycle number
+// of the NoC that is being evaluated (delays in Booksim are in NoC cycles)
+int GetSimTime();
+
+// Sets the time used by the Booksim components
+void SetSimTime(int cycle);
 
 // Calculates the number of hops between source and destination nodes in a 2D
 // grid of certain dimension in case of minimal XY routing
-- 
2.43.0


From 1dc89ef15f742e6790ff72b35d04584d69e38543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/56] fix: return one NoC credit per node and cycle

An adapter clocked faster than its NoC depacketized several flits per NoC
cycle, but only one credit per node fits in the map read by the NoC: the
others were lost and the link finally starved.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 7 +++++++
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 7 +++++++
 rad-sim/sim/noc/axis_master_adapter.cpp  | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..c13c56d 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -165,6 +165,13 @@ void aximm_master_adapter::OutputDepacketization() {
   _ejection_afifo_is_depacketizing.write(false);
 
   while (true) {
+    // The NoC takes one credit per node and NoC cycle: wait until the credit of
+    // the previously depacketized flit is picked up
+    if (_ejected_flits->find(_node_id) != _ejected_flits->end()) {
+      wait();
+      continue;
+    }
+
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
         _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..2072b8a 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -539,6 +539,13 @@ void aximm_slave_adapter::OutputDepacketization() {
   _ejection_afifo_is_depacketizing.write(false);
 
   while (true) {
+    // The NoC takes one credit per node and NoC cycle: wait until the credit of
+    // the previously depacketized flit is picked up
+    if (_ejected_flits->find(_node_id) != _ejected_flits->end()) {
+      wait();
+      continue;
+    }
+
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
         _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..c096fac 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -125,6 +125,13 @@ void axis_master_adapter::OutputDepacketization() {
   _ejection_afifo_is_depacketizing.write(false);
 
   while (true) {
+    // The NoC takes one credit per node and NoC cycle: wait until the credit of
+    // the previously depacketized flit is picked up
+    if (_ejected_flits->find(_node_id) != _ejected_flits->end()) {
+      wait();
+      continue;
+    }
+
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     unsigned int dest_output_fifo = 0;
     if (!_ejection_afifos[highest_priority_fifo_id].empty()) {
-- 
2.43.0


From 22a34f79d8aaf960618bf6e6f42e48d6435b3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 03/56] fix: let BookSim allocators with a delay above one
 cycle be pipelined

While an older request was in flight, a new one kept its 'unscheduled' mark and
tripped assert(time >= 0) in the same cycle.
---
 rad-sim/sim/noc/booksim/routers/iq_router.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.cpp b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
index 2f66207..f47f9cc 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.cpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
@@ -565,7 +565,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -714,7 +714,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _vc_alloc_delay - 1;
 
@@ -1337,7 +1337,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -1503,7 +1503,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _sw_alloc_delay - 1;
 
-- 
2.43.0


From c56b1f2db23a6988caf75b4af7ee4e0893cd28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 04/56] fix: extract AXI-MM burst, size and length from the
 control field

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index c13c56d..f77f351 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -285,13 +285,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -322,13 +322,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From 776614bc460f9e6ccf77668385dad7e1e3179e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 05/56] fix: packetize all bits of AXI-MM address and write
 response beats

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index f77f351..0d39caf 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -498,7 +498,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 2072b8a..ede3f2b 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -293,8 +293,9 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
-                                  NOC_LINKS_PAYLOAD_WIDTH));
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) *
+                                  1.0 / NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
           AXI4_ADDR(packet_bv) = _i_payload.read();
-- 
2.43.0


From 8c82ea7268fb0e6a2598da7628debbb1a02b2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 06/56] fix: hold AXI-MM beats until valid and ready meet

The memory-mapped adapters dropped valid after one cycle whether or not the
module was still ready, and the memory controller and the feature interaction
modules accepted beats while their ready was low. Beats were lost when ready
fell, and duplicated when a requester held valid.
---
 .../modules/custom_feature_interaction.cpp    |  2 +-
 .../dlrm/modules/feature_interaction.cpp      |  2 +-
 .../modules/custom_feature_interaction.cpp    |  2 +-
 .../modules/feature_interaction.cpp           |  2 +-
 rad-sim/sim/dram/mem_controller.cpp           | 19 +++----------
 rad-sim/sim/noc/aximm_master_adapter.cpp      | 27 +++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.cpp       | 20 +++++++-------
 7 files changed, 30 insertions(+), 44 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
index 79522bc..73dad93 100644
--- a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
@@ -174,7 +174,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { 
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
index b0f423e..e88dbef 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
@@ -175,7 +175,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { //&& (radsim_design->rad_id == 0)) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..daaa9b9 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -374,21 +374,10 @@ void mem_controller::Tick() {
 
   while (true) {
     for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
-      bool rd_iqueue_ok = _read_address_queue[ch_id].size() < _input_queue_size;
-      bool rd_oqueue_ok =
-          (_outstanding_read_requests[ch_id].size() +
-           _output_read_responses[ch_id].size()) < _output_queue_size;
-      bool wr_oqueue_ok =
-          (_outstanding_write_requests[ch_id].size() +
-           _output_write_responses[ch_id].size()) < _output_queue_size;
-
-      bool awready_flag =
-          _write_address_queue_occupancy[ch_id] < _input_queue_size;
-      bool wready_flag =
-          _write_address_queue_occupancy[ch_id] > 0 &&
-          _write_data_queue_occupancy[ch_id] < _input_queue_size &&
-          wr_oqueue_ok;
-      bool arready_flag = rd_iqueue_ok && rd_oqueue_ok;
+      // A beat is accepted when valid and the advertised ready meet
+      bool awready_flag = mem_channels[ch_id].awready.read();
+      bool wready_flag = mem_channels[ch_id].wready.read();
+      bool arready_flag = mem_channels[ch_id].arready.read();
 
       // Accepting write address requests
       if (mem_channels[ch_id].awvalid.read() && awready_flag) {
diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 0d39caf..e772b1f 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -255,14 +255,22 @@ void aximm_master_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // A presented transaction stays valid until the module is ready for it
+    if ((aximm_interface.arvalid.read() && aximm_interface.arready.read()) ||
+        (aximm_interface.awvalid.read() && aximm_interface.awready.read()) ||
+        (aximm_interface.wvalid.read() && aximm_interface.wready.read())) {
+      NoCTransactionTelemetry::RecordTransactionReceipt(
+          _output_packet.GetFlit(0)->_sim_transaction_id);
+      _output_packet_ready = false;
+    }
+
     if (!_output_afifo.empty() > 0 && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
       _output_packet_ready = true;
     }
     if (_output_packet_ready &&
-        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
-        aximm_interface.arready.read()) {
+        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -292,14 +300,10 @@ void aximm_master_adapter::OutputInterface() {
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
           ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
-      _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
       // std::cout << this->name() << ": Got AR request!" << std::endl;
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::WRITE_REQUEST) &&
-               aximm_interface.awready.read()) {
+                Flit::FlitType::WRITE_REQUEST)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -329,13 +333,9 @@ void aximm_master_adapter::OutputInterface() {
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
           ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
-      _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::WRITE_DATA) &&
-               aximm_interface.wready.read()) {
+                Flit::FlitType::WRITE_DATA)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -356,9 +356,6 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.wlast.write(AXI4_LAST(temp_bv).to_uint());
       aximm_interface.wdata.write(AXI4_DATA(temp_bv));
       aximm_interface.wuser.write(AXI4_USER(temp_bv));
-      _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else {
       aximm_interface.arvalid.write(false);
       aximm_interface.awvalid.write(false);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index ede3f2b..b17f675 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -630,6 +630,14 @@ void aximm_slave_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // A presented transaction stays valid until the module is ready for it
+    if ((aximm_interface.rvalid.read() && aximm_interface.rready.read()) ||
+        (aximm_interface.bvalid.read() && aximm_interface.bready.read())) {
+      NoCTransactionTelemetry::RecordTransactionReceipt(
+          _output_packet.GetFlit(0)->_sim_transaction_id);
+      _output_packet_ready = false;
+    }
+
     if (!_output_afifo.empty() && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
@@ -637,8 +645,7 @@ void aximm_slave_adapter::OutputInterface() {
     }
 
     if (_output_packet_ready &&
-        (_output_packet.GetFlit(0)->_type == Flit::FlitType::WRITE_REPLY) &&
-        aximm_interface.bready.read()) {
+        (_output_packet.GetFlit(0)->_type == Flit::FlitType::WRITE_REPLY)) {
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
 
@@ -656,13 +663,9 @@ void aximm_slave_adapter::OutputInterface() {
       aximm_interface.bvalid.write(true);
       aximm_interface.buser.write(AXI4_USER(temp_bv));
       aximm_interface.bresp.write(AXI4_RESP(temp_bv));
-      _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::READ_REPLY) &&
-               aximm_interface.rready.read()) {
+                Flit::FlitType::READ_REPLY)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -683,9 +686,6 @@ void aximm_slave_adapter::OutputInterface() {
       aximm_interface.rlast.write(AXI4_LAST(temp_bv).to_uint());
       aximm_interface.rdata.write(AXI4_DATA(temp_bv));
       aximm_interface.ruser.write(AXI4_USER(temp_bv));
-      _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
       // std::cout << GetSimulationCycle(5.0) << " === " << this->name()
       //           << ": Got R response!" << std::endl;
     } else {
-- 
2.43.0


From 738a46ffc10ecc24644d175fb038756194bd0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 07/56] fix: stamp AXI-MM packetization when the last flit is
 built

The stamp was taken at the end of the frequency-ratio window, after the
flits may already have left the network, and never for one-cycle windows.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index e772b1f..630f6e6 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -532,6 +532,8 @@ void aximm_master_adapter::InputPacketization() {
             _injection_afifo.push(packetization_flit);
           }
         }
+        NoCTransactionTelemetry::RecordTransactionTailPacketization(
+            _i_unique_sim_id.read());
         _num_packetization_flits.write(num_flits);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
       }
@@ -545,8 +547,6 @@ void aximm_master_adapter::InputPacketization() {
         limit = _freq_ratio - 1;
       }
       if (_packetization_cycle.read() == limit) {
-        NoCTransactionTelemetry::RecordTransactionTailPacketization(
-            _i_unique_sim_id.read());
         _packetization_cycle.write(0);
       } else {
         _packetization_cycle.write(_packetization_cycle.read() + 1);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index b17f675..8cdde0e 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -338,6 +338,8 @@ void aximm_slave_adapter::InputPacketization() {
             _injection_afifo.push(packetization_flit);
           }
         }
+        NoCTransactionTelemetry::RecordTransactionTailPacketization(
+            _i_unique_sim_id.read());
         _num_packetization_flits.write(num_flits);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
       }
@@ -351,8 +353,6 @@ void aximm_slave_adapter::InputPacketization() {
         limit = _freq_ratio - 1;
       }
       if (_packetization_cycle.read() == limit) {
-        NoCTransactionTelemetry::RecordTransactionTailPacketization(
-            _i_unique_sim_id.read());
         _packetization_cycle.write(0);
       } else {
         _packetization_cycle.write(_packetization_cycle.read() + 1);
-- 
2.43.0


From dc5d152d3d4e4ae389630bfc82c154f6cd04fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 08/56] fix: ignore unfinished transactions when taking a
 flow's hop count

A transaction still in flight has zero hops; minus one wrapped around and
made the aggregate bandwidth absurd.
---
 rad-sim/sim/radsim_telemetry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index a8a5c5e..58d82e4 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -82,7 +82,9 @@ std::vector<double> NoCTransactionTelemetry::DumpTrafficFlows(const std::string&
       traffic_bits[noc_id][src][dest] = entry.second.dataw;
     else
       traffic_bits[noc_id][src][dest] += entry.second.dataw;
-    traffic_num_hops[noc_id][src][dest] = entry.second.num_hops - 1;
+    // Transactions still in the NoC have no hop count yet
+    if (entry.second.num_hops > 0)
+      traffic_num_hops[noc_id][src][dest] = entry.second.num_hops - 1;
   }
   
   std::vector<double> aggregate_bandwidths;
-- 
2.43.0


From 41aec72d1713313f4d76c1a125b45c66c51963a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 09/56] fix: keep BookSim's routing state per network

Radix, node count and VC ranges were globals of the last NoC built, so
NoCs of different sizes or VC counts misrouted or aborted.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp     |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp      |  1 +
 rad-sim/sim/noc/axis_slave_adapter.cpp       |  1 +
 rad-sim/sim/noc/booksim/networks/network.cpp | 22 ++++++++++++++++++++
 rad-sim/sim/noc/booksim/networks/network.hpp |  7 +++++++
 rad-sim/sim/noc/radsim_noc.cpp               |  1 +
 6 files changed, 33 insertions(+)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 630f6e6..70278f5 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -618,6 +618,7 @@ void aximm_master_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->UseRoutingGlobals();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 8cdde0e..83ba8b7 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -424,6 +424,7 @@ void aximm_slave_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->UseRoutingGlobals();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 7055e41..c39540b 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -256,6 +256,7 @@ void axis_slave_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->UseRoutingGlobals();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/booksim/networks/network.cpp b/rad-sim/sim/noc/booksim/networks/network.cpp
index 14dac00..d0d0232 100644
--- a/rad-sim/sim/noc/booksim/networks/network.cpp
+++ b/rad-sim/sim/noc/booksim/networks/network.cpp
@@ -30,6 +30,7 @@
 
 #include "booksim.hpp"
 #include "network.hpp"
+#include "routefunc.hpp"
 
 #include "kncube.hpp"
 #include "fly.hpp"
@@ -116,9 +117,30 @@ Network * Network::New(const Configuration & config, const string & name)
     if ( n && ( config.GetInt( "link_failures" ) > 0 ) ) {
         n->InsertRandomFaults( config );
     }
+    if ( n ) n->_SaveRoutingGlobals( );
     return n;
 }
 
+// The global variables that routing functions depend on
+static int * const kRoutingGlobals[] = {
+    &gK, &gN, &gC, &gNodes, &gNumVCs,
+    &gReadReqBeginVC, &gReadReqEndVC, &gWriteReqBeginVC, &gWriteReqEndVC,
+    &gWriteDataBeginVC, &gWriteDataEndVC, &gReadReplyBeginVC, &gReadReplyEndVC,
+    &gWriteReplyBeginVC, &gWriteReplyEndVC
+};
+
+void Network::_SaveRoutingGlobals( )
+{
+    _routing_globals.clear( );
+    for ( int * g : kRoutingGlobals ) _routing_globals.push_back( *g );
+}
+
+void Network::UseRoutingGlobals( ) const
+{
+    size_t i = 0;
+    for ( int * g : kRoutingGlobals ) *g = _routing_globals[i++];
+}
+
 // Allocates memory for all the Network datastructures.
 void Network::_Alloc( )
 {
diff --git a/rad-sim/sim/noc/booksim/networks/network.hpp b/rad-sim/sim/noc/booksim/networks/network.hpp
index b8cd3c8..7156408 100644
--- a/rad-sim/sim/noc/booksim/networks/network.hpp
+++ b/rad-sim/sim/noc/booksim/networks/network.hpp
@@ -76,6 +76,10 @@ protected:
     // All Network channels (injection, ejection, links)
     deque<TimedModule *> _timed_modules;
 
+    // Routing state of this network (BookSim keeps that of the last one built)
+    vector<int> _routing_globals;
+    void _SaveRoutingGlobals( );
+
     virtual void _ComputeSize( const Configuration &config ) = 0;
     virtual void _BuildNet( const Configuration &config ) = 0;
 
@@ -87,6 +91,9 @@ public:
 
     static Network *New( const Configuration &config, const string & name );
 
+    // To be called before routing functions work on this network
+    void UseRoutingGlobals( ) const;
+
     virtual void WriteFlit( Flit *f, int source );
     virtual Flit *ReadFlit( int dest );
 
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 75e81e9..c53c50e 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -304,6 +304,7 @@ void radsim_noc::Tick() {
 
   while (true) {
     SetSimTime(_noc_cycle++);
+    _booksim_noc->UseRoutingGlobals();
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
       map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
-- 
2.43.0


From c4b91fa729858dbffbb9056c8e4b5813e0265e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 10/56] fix: keep BookSim packets on the VCs of their class and
 phase

min_adapt_mesh offered escape channels below the packet's own class, and
Valiant routing did not keep the phases apart in a router that happens to be
the destination, which can deadlock; on a torus the ring partition was used
uninitialised while a packet stays in its dimension.
---
 rad-sim/sim/noc/booksim/routefunc.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..d3f92eb 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
@@ -1356,8 +1356,8 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
 
     out_port = dor_next_mesh( r->GetID( ), (f->ph == 0) ? f->intm : f->dest );
 
-    // at the destination router, we don't need to separate VCs by phase
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase
+    if(out_port != 2*gN) {
 
       //each class must have at least 2 vcs assigned or else valiant valiant will deadlock
       int const available_vcs = (vcEnd - vcBegin + 1) / 2;
@@ -1422,14 +1422,14 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
+    int ring_part = f->ph % 2; // kept unless a new dimension is entered
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase, etc.
+    if(out_port != 2*gN) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
-- 
2.43.0


From ebf1682455fdebc95de55eaa33123d0d1931b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 11/56] fix: select allocator with several iterations granted
 two outputs to one input

---
 rad-sim/sim/noc/booksim/allocators/selalloc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
index adf0c10..95910be 100644
--- a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
@@ -59,11 +59,12 @@ void SelAlloc::Allocate( )
   int max_index;
   int max_pri;
 
-  vector<int> grants(_outputs, -1);
-
   for ( int iter = 0; iter < _iter; ++iter ) {
     // Grant phase
 
+    // grants of an earlier iteration must not be accepted again
+    vector<int> grants(_outputs, -1);
+
     for( outer_iter = _out_occ.begin( ); 
 	 outer_iter != _out_occ.end( ); ++outer_iter ) {
       output = *outer_iter;
-- 
2.43.0


From 0ce8ec6d990a68e6187272e13525cde02ee9cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 12/56] fix: max_size allocator missed grants with more outputs
 than inputs

---
 rad-sim/sim/noc/booksim/allocators/maxsize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
index ffa11b4..5b9ec0f 100644
--- a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
@@ -112,7 +112,7 @@ bool MaxSizeMatch::_ShortestAugmenting( )
     }
   }
 
-  _from.assign(_inputs, -1);
+  _from.assign(_outputs, -1);
 
   for ( int iter = 0; iter < _inputs; iter++ ) {
     nslen = 0;
-- 
2.43.0


From 80940020bd7850a0ab4f550299e541b8a7692e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 13/56] fix: wavefront allocator granted a withdrawn lone
 request

---
 rad-sim/sim/noc/booksim/allocators/wavefront.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/wavefront.cpp b/rad-sim/sim/noc/booksim/allocators/wavefront.cpp
index bfc43de..499ea09 100644
--- a/rad-sim/sim/noc/booksim/allocators/wavefront.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/wavefront.cpp
@@ -62,7 +62,7 @@ void Wavefront::Allocate( )
     // bypass allocator completely if there were no requests
     return;
   
-  if(_num_requests == 1) {
+  if(_num_requests == 1 && _request[_last_in][_last_out].label != -1) {
 
     // if we only had a single request, we can immediately grant it
     _inmatch[_last_in] = _last_out;
@@ -102,7 +102,9 @@ void Wavefront::Allocate( )
   _last_out = -1;
   _priorities.clear();
   
-  assert(first_diag >= 0);
+  // all requests were withdrawn
+  if(first_diag < 0)
+    return;
 
   // Round-robin the priority diagonal
   _pri = ( ( _skip_diags ? first_diag : _pri ) + 1 ) % _square;
-- 
2.43.0


From 6abdf5c220221e00ca218ced4cbc1d484c3e1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 14/56] fix: put the NoC ID below the node ID in AXI-MM base
 addresses

---
 rad-sim/sim/design_context.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..e66e0b0 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -72,18 +72,12 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
 
 uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
   int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
   int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
-  uint64_t base_addr = noc_id << node_bits;
-  base_addr += node_id;
-  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
+  // The NoC adapters decode the destination node from the most significant
+  // AXI4_NODE_ADDRW bits, so the NoC ID has to come below the node ID
+  uint64_t base_addr = (uint64_t)node_id << noc_bits;
+  base_addr += noc_id;
+  base_addr <<= (AXI4_ADDRW - AXI4_NODE_ADDRW - noc_bits);
   return base_addr;
 }
 
-- 
2.43.0


From 7b755c7c56e62710843f36fa66d2dc081a948a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 15/56] fix: let AXI-MM adapters work at any clock ratio

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 24 +++++++++++---------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  4 +++-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 28 ++++++++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  4 +++-
 4 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 70278f5..6755ac6 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -66,7 +66,8 @@ aximm_master_adapter::aximm_master_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.rvalid
             << aximm_interface.bvalid << _injection_priority_setting
-            << _packetization_cycle << rst;
+            << _packetization_cycle
+            << _i_captured_count << _i_packetized_count << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -390,8 +391,11 @@ void aximm_master_adapter::InputReady() {
     // simultaneously.
     assert(!(_rready && _bready));
   }
-  aximm_interface.rready.write((_packetization_cycle.read() == 0) && _rready);
-  aximm_interface.bready.write((_packetization_cycle.read() == 0) && _bready);
+  // A captured transaction has to be packetized before the next is accepted
+  bool idle = (_packetization_cycle.read() == 0) &&
+              (_i_captured_count.read() == _i_packetized_count.read());
+  aximm_interface.rready.write(idle && _rready);
+  aximm_interface.bready.write(idle && _bready);
 }
 
 int aximm_master_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
@@ -408,7 +412,7 @@ void aximm_master_adapter::InputInterface() {
   _i_payload.write(0);
   _i_ctrl.write(0);
   _i_user.write(0);
-  _i_valid.write(false);
+  _i_captured_count.write(0);
   _i_type.write(0);
   _i_noc_dest.write(0);
   _i_resp.write(0);
@@ -426,7 +430,7 @@ void aximm_master_adapter::InputInterface() {
       _i_resp.write(aximm_interface.rresp.read());
       _i_last.write(aximm_interface.rlast.read());
       _i_user.write(aximm_interface.ruser.read());
-      _i_valid.write(aximm_interface.rvalid.read());
+      _i_captured_count.write(_i_captured_count.read() + 1);
       _i_type.write(AXI_TYPE_R);
       sc_bv<AXI4_ADDRW> resp_addr = aximm_interface.ruser.read().to_uint64();
       int noc_dest = GetInputDestinationNode(resp_addr);
@@ -448,7 +452,7 @@ void aximm_master_adapter::InputInterface() {
       _i_id.write(aximm_interface.bid.read());
       _i_resp.write(aximm_interface.bresp.read());
       _i_user.write(aximm_interface.buser.read());
-      _i_valid.write(aximm_interface.bvalid.read());
+      _i_captured_count.write(_i_captured_count.read() + 1);
       _i_type.write(AXI_TYPE_B);
       sc_bv<AXI4_ADDRW> resp_addr = aximm_interface.buser.read().to_uint64();
       int noc_dest = GetInputDestinationNode(resp_addr);
@@ -465,8 +469,6 @@ void aximm_master_adapter::InputInterface() {
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
       _i_unique_sim_id.write(unique_sim_id);
-    } else {
-      _i_valid.write(false);
     }
     wait();
   }
@@ -478,6 +480,7 @@ void aximm_master_adapter::InputInterface() {
 void aximm_master_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
+  _i_packetized_count.write(0);
   _num_packetization_flits.write(0);
   _injection_afifo_full.write(false);
   wait();
@@ -485,7 +488,7 @@ void aximm_master_adapter::InputPacketization() {
   while (true) {
     // If a valid transaction is selected and asynchronous injection FIFO has
     // empty slots
-    if (_i_valid.read()) {
+    if (_i_captured_count.read() != _i_packetized_count.read()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -536,6 +539,7 @@ void aximm_master_adapter::InputPacketization() {
             _i_unique_sim_id.read());
         _num_packetization_flits.write(num_flits);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
+        _i_packetized_count.write(_i_packetized_count.read() + 1);
       }
     }
 
@@ -546,7 +550,7 @@ void aximm_master_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         _packetization_cycle.write(0);
       } else {
         _packetization_cycle.write(_packetization_cycle.read() + 1);
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..7ae5554 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -57,7 +57,9 @@ private:
   sc_signal<sc_bv<AXI4_USERW>> _i_user;
   sc_signal<sc_bv<AXI4_RESPW>> _i_resp;
   sc_signal<sc_bv<1>> _i_last;
-  sc_signal<bool> _i_valid;
+  // Transactions captured (node clock) and packetized (adapter clock) so far
+  sc_signal<unsigned int> _i_captured_count;
+  sc_signal<unsigned int> _i_packetized_count;
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 83ba8b7..125a0a5 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -51,7 +51,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
-            << _injection_priority_setting << _packetization_cycle << rst;
+            << _injection_priority_setting << _packetization_cycle
+            << _i_captured_count << _i_packetized_count << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -132,9 +133,12 @@ void aximm_slave_adapter::InputReady() {
             !(_arready && _awready && _wready)) ||
            (!_arready && !_awready && !_wready));
   }
-  aximm_interface.awready.write((_packetization_cycle.read() == 0) && _awready);
-  aximm_interface.wready.write((_packetization_cycle.read() == 0) && _wready);
-  aximm_interface.arready.write((_packetization_cycle.read() == 0) && _arready);
+  // A captured transaction has to be packetized before the next is accepted
+  bool idle = (_packetization_cycle.read() == 0) &&
+              (_i_captured_count.read() == _i_packetized_count.read());
+  aximm_interface.awready.write(idle && _awready);
+  aximm_interface.wready.write(idle && _wready);
+  aximm_interface.arready.write(idle && _arready);
 }
 
 // Implements the input interface capturing into the reduced set of signals to
@@ -146,7 +150,7 @@ void aximm_slave_adapter::InputInterface() {
   _i_payload.write(0);
   _i_ctrl.write(0);
   _i_user.write(0);
-  _i_valid.write(false);
+  _i_captured_count.write(0);
   _i_type.write(0);
   _i_noc_dest.write(0);
   _i_resp.write(0);
@@ -173,7 +177,7 @@ void aximm_slave_adapter::InputInterface() {
           aximm_interface.arlen.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.aruser.read());
-      _i_valid.write(aximm_interface.arvalid.read());
+      _i_captured_count.write(_i_captured_count.read() + 1);
       _i_type.write(AXI_TYPE_AR);
       sc_bv<AXI4_ADDRW> araddr = aximm_interface.araddr.read();
       int noc_dest = GetInputDestinationNode(araddr);
@@ -205,7 +209,7 @@ void aximm_slave_adapter::InputInterface() {
           aximm_interface.awlen.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.awuser.read());
-      _i_valid.write(aximm_interface.awvalid.read());
+      _i_captured_count.write(_i_captured_count.read() + 1);
       _i_type.write(AXI_TYPE_AW);
       sc_bv<AXI4_ADDRW> awaddr = aximm_interface.awaddr.read();
       int noc_dest = GetInputDestinationNode(awaddr);
@@ -231,7 +235,7 @@ void aximm_slave_adapter::InputInterface() {
       tmp_ctrl.range(0, 0) = aximm_interface.wlast.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.wuser.read());
-      _i_valid.write(aximm_interface.wvalid.read());
+      _i_captured_count.write(_i_captured_count.read() + 1);
       _i_type.write(AXI_TYPE_W);
       _i_last.write(aximm_interface.wlast.read());
       _i_noc_dest.write(_last_awdest.read());
@@ -248,8 +252,6 @@ void aximm_slave_adapter::InputInterface() {
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
                 << std::endl;*/
-    } else {
-      _i_valid.write(false);
     }
     wait();
   }
@@ -271,6 +273,7 @@ int aximm_slave_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
 void aximm_slave_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
+  _i_packetized_count.write(0);
   _num_packetization_flits.write(0);
   _injection_afifo_full.write(false);
   _last_awdest.write(0);
@@ -279,7 +282,7 @@ void aximm_slave_adapter::InputPacketization() {
   while (true) {
     // If a valid transaction is selected and asynchronous injection FIFO has
     // empty slots
-    if (_i_valid.read()) {
+    if (_i_captured_count.read() != _i_packetized_count.read()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -342,6 +345,7 @@ void aximm_slave_adapter::InputPacketization() {
             _i_unique_sim_id.read());
         _num_packetization_flits.write(num_flits);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
+        _i_packetized_count.write(_i_packetized_count.read() + 1);
       }
     }
 
@@ -352,7 +356,7 @@ void aximm_slave_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         _packetization_cycle.write(0);
       } else {
         _packetization_cycle.write(_packetization_cycle.read() + 1);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..2c5f95c 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -93,7 +93,9 @@ private:
   sc_signal<sc_bv<AXI4_USERW>> _i_user;
   sc_signal<sc_bv<AXI4_RESPW>> _i_resp;
   sc_signal<sc_bv<1>> _i_last;
-  sc_signal<bool> _i_valid;
+  // Transactions captured (node clock) and packetized (adapter clock) so far
+  sc_signal<unsigned int> _i_captured_count;
+  sc_signal<unsigned int> _i_packetized_count;
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
-- 
2.43.0


From 3c11f15590e52a8499351e426611366f2a5a89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 16/56] fix: configure every device of a cluster from its own
 named config

---
 rad-sim/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..d935732 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -98,7 +98,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
@@ -332,7 +332,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
@@ -397,7 +397,7 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        design_name = radsim_knobs[config_names.index(cluster_knobs["cluster_configs"][i])]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From a52e50891869adf8a89aced53d46e5111bb42461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 17/56] fix: count the packet just dropped in the inter-RAD
 drop report

---
 rad-sim/sim/radsim_inter_rad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/radsim_inter_rad.cpp b/rad-sim/sim/radsim_inter_rad.cpp
index 5d623e9..a3ac722 100644
--- a/rad-sim/sim/radsim_inter_rad.cpp
+++ b/rad-sim/sim/radsim_inter_rad.cpp
@@ -111,8 +111,8 @@ RADSimInterRad::writeFifo() {
                     fifos_latency_counters[dest_rad].push_back(0); //for latency counters
                 }
                 else {
-                    std::cout << "WRITE FIFO FULL: packet dropped at inter_rad: could not write into internal fifo. Packets dropped count: " << write_fifo_packet_drop_count << std::endl;
                     write_fifo_packet_drop_count++;
+                    std::cout << "WRITE FIFO FULL: packet dropped at inter_rad: could not write into internal fifo. Packets dropped count: " << write_fifo_packet_drop_count << std::endl;
                 }
             }
         }
-- 
2.43.0


From c749c96979cedafd361d9c7c653673977c8d5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 18/56] fix: keep the traffic flows of each RAD apart

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 6 +++---
 rad-sim/sim/noc/axis_slave_adapter.cpp   | 2 +-
 rad-sim/sim/radsim_telemetry.cpp         | 4 +++-
 rad-sim/sim/radsim_telemetry.hpp         | 4 +++-
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 6755ac6..b34075e 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -445,7 +445,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     } else if (aximm_interface.bready.read() && aximm_interface.bvalid.read()) {
       // Capture the values at the AXI B port
@@ -467,7 +467,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     }
     wait();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 125a0a5..443ed90 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -188,7 +188,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       // std::cout << this->name() << ": Registered AR transaction (user = "
       //           << aximm_interface.aruser.read().to_uint64() << ")!"
@@ -221,7 +221,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered AW transaction (user = "
                 << aximm_interface.awuser.read().to_uint64() << ")!"
@@ -247,7 +247,7 @@ void aximm_slave_adapter::InputInterface() {
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, (int)_last_awdest.read().to_uint(), AXI_TYPE_W,
-          _interface_dataw, _network_id);
+          _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index c39540b..67e5e58 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -130,7 +130,7 @@ void axis_slave_adapter::InputInterface() {
                 _node_id,
                 GetInputDestinationNode(axis_interfaces[interface_id].tdest.read()),
                 _interface_types[interface_id], _interface_dataw[interface_id],
-                _network_id);
+                _network_id, _rad_id);
 
         // Register the packet ID, transaction type, and which interface it came from
         input_transaction.transaction_id = unique_sim_packet_id;
diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index 58d82e4..29fb33f 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -7,13 +7,14 @@ NoCTransactionTelemetry::NoCTransactionTelemetry() {}
 NoCTransactionTelemetry::~NoCTransactionTelemetry() {}
 
 // Records the initiation timestamp of a transaction and returns its unique global ID
-int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id) {
+int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id, unsigned int rad_id) {
   NoCTransactionTrace entry;
   entry.src_node = src;
   entry.dest_node = ((1 << AXIS_DEST_FIELDW) - 1) & dest; //extract only local NoC node. ignore any remote NoC node set for inter-rad network.
   entry.transaction_type = type;
   entry.dataw = dataw;
   entry.network_id = network_id;
+  entry.rad_id = rad_id;
   entry.t_init = sc_time_stamp().to_double() / 1000;
   global_transaction_id++;
   trace_bookkeeping[global_transaction_id] = entry;
@@ -75,6 +76,7 @@ std::vector<double> NoCTransactionTelemetry::DumpTrafficFlows(const std::string&
     traffic_num_hops[noc_id].resize(num_nodes);
   }
   for (auto& entry : trace_bookkeeping) {
+    if (entry.second.rad_id != rad_id) continue;
     unsigned int noc_id = (unsigned int) entry.second.network_id;
     unsigned int src = (unsigned int) entry.second.src_node;
     unsigned int dest = (unsigned int) entry.second.dest_node;
diff --git a/rad-sim/sim/radsim_telemetry.hpp b/rad-sim/sim/radsim_telemetry.hpp
index 3d4638f..951e45d 100644
--- a/rad-sim/sim/radsim_telemetry.hpp
+++ b/rad-sim/sim/radsim_telemetry.hpp
@@ -18,6 +18,7 @@ struct NoCTransactionTrace {
   int transaction_type;     // Transaction type
   int dataw;                // Data width of the transaction in bits
   int network_id;           // NoC ID of the transaction
+  unsigned int rad_id;      // ID of the RAD whose NoC carries the transaction
   double t_init;            // Time at which transaction is initiated
   double t_packet;          // Time at which transaction is packetized
   double t_inject;          // Time at which head flit of transaction is injected into the NoC
@@ -33,6 +34,7 @@ struct NoCTransactionTrace {
         transaction_type(0),
         dataw(0),
         network_id(0),
+        rad_id(0),
         t_init(0.0),
         t_packet(0.0),
         t_inject(0.0),
@@ -50,7 +52,7 @@ class NoCTransactionTelemetry {
 
   NoCTransactionTelemetry();
   ~NoCTransactionTelemetry();
-  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id);
+  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id, unsigned int rad_id);
   static void RecordTransactionTailPacketization(int id);
   static void RecordTransactionHeadInjection(int id);
   static void RecordTransactionTailEjection(int id);
-- 
2.43.0


From f237a6f6aa27a3d015df1fe0aed30df416b1416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 19/56] fix: record the portal as NoC destination of inter-RAD
 transactions

---
 rad-sim/sim/noc/axis_slave_adapter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 67e5e58..cf6cb87 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -124,11 +124,16 @@ void axis_slave_adapter::InputInterface() {
         input_transaction.tstrb = axis_interfaces[interface_id].tstrb.read();
         input_transaction.tuser = axis_interfaces[interface_id].tuser.read();
         
+        // Transactions to other RADs leave this RAD's NoC at its portal module
+        sc_bv<AXIS_DESTW> noc_dest = _portal_id;
+        if (DEST_RAD(input_transaction.tdest) == _rad_id)
+          noc_dest = DEST_LOCAL_NODE(input_transaction.tdest);
+
         // Log transaction initiation to get a unique packet ID
         int unique_sim_packet_id =
             NoCTransactionTelemetry::RecordTransactionInitiation(
                 _node_id,
-                GetInputDestinationNode(axis_interfaces[interface_id].tdest.read()),
+                GetInputDestinationNode(noc_dest),
                 _interface_types[interface_id], _interface_dataw[interface_id],
                 _network_id, _rad_id);
 
-- 
2.43.0


From bcac590a4d74445ddbb5e4cfd28d2a9db7f32594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 20/56] fix: refresh all ranks under simultaneous rank refresh

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 97b8ed898b6dd3b3c5ac7b70df595ea0f2bd9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 21/56] fix: per-bank refresh keeps its own bank busy and lets
 the others work

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..8a0c0f8 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -51,8 +51,6 @@ Timing::Timing(const Config& config)
         config.tRC;  // need to precharge before ref, so it's tRC
 
     // TODO: deal with different refresh rate
-    int refresh_to_refresh =
-        config.tREFI;  // refresh intervals (per rank level)
     int refresh_to_activate = config.tRFC;  // tRFC is defined as ref to act
     int refresh_to_activate_bank = config.tRFCb;
 
@@ -222,7 +220,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
@@ -231,14 +229,14 @@ Timing::Timing(const Config& config)
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, activate_to_activate_l},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, activate_to_activate_s},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     // REFRESH, SREF_ENTER and SREF_EXIT are isued to the entire
-- 
2.43.0


From 7c33fc11a93ae1f1697b832a97b89c62532fbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 22/56] fix: refresh every bank at its interval with several
 ranks

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 4b9fa4b..7544072 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -12,7 +12,7 @@ Refresh::Refresh(const Config &config, ChannelState &channel_state)
     if (refresh_policy_ == RefreshPolicy::RANK_LEVEL_SIMULTANEOUS) {
         refresh_interval_ = config_.tREFI;
     } else if (refresh_policy_ == RefreshPolicy::BANK_LEVEL_STAGGERED) {
-        refresh_interval_ = config_.tREFIb;
+        refresh_interval_ = config_.tREFIb / config_.ranks;
     } else {  // default refresh scheme: RANK STAGGERED
         refresh_interval_ = config_.tREFI / config_.ranks;
     }
-- 
2.43.0


From da78fa4194567aff70e9c63b91e08c18e491a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 23/56] fix: keep the row open time before refreshes that
 follow auto-precharge

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 8a0c0f8..ad825b2 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -186,6 +186,9 @@ Timing::Timing(const Config& config)
             {CommandType::READ_PRECHARGE, activate_to_read},
             {CommandType::WRITE_PRECHARGE, activate_to_write},
             {CommandType::PRECHARGE, activate_to_precharge},
+            {CommandType::REFRESH, activate_to_refresh},
+            {CommandType::REFRESH_BANK, activate_to_refresh},
+            {CommandType::SREF_ENTER, activate_to_refresh},
         };
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
-- 
2.43.0


From 8ffd0f5a784ff8a88ce9a23aca59a242e3d5e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 24/56] fix: use the read-to-precharge time of descriptions
 that give tRTP_L

---
 rad-sim/sim/dram/DRAMsim3/src/configuration.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/configuration.cc b/rad-sim/sim/dram/DRAMsim3/src/configuration.cc
index d51da17..fdb4341 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/configuration.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/configuration.cc
@@ -303,7 +303,7 @@ void Config::InitTimingParams() {
   tCCD_L = GetInteger("timing", "tCCD_L", 6);
   tCCD_S = GetInteger("timing", "tCCD_S", 4);
   tRTRS = GetInteger("timing", "tRTRS", 2);
-  tRTP = GetInteger("timing", "tRTP", 5);
+  tRTP = GetInteger("timing", "tRTP", GetInteger("timing", "tRTP_L", 5));
   tWTR_L = GetInteger("timing", "tWTR_L", 5);
   tWTR_S = GetInteger("timing", "tWTR_S", 5);
   tWR = GetInteger("timing", "tWR", 10);
-- 
2.43.0


From 6789037b3a0a00b6d4a3a79cd6801ba671ab36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 25/56] fix: let a rank be woken from self-refresh

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..b6cc22c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -70,6 +70,7 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::READ_PRECHARGE:
                 case CommandType::WRITE:
                 case CommandType::WRITE_PRECHARGE:
+                case CommandType::SREF_EXIT:
                     required_type = CommandType::SREF_EXIT;
                     break;
                 default:
-- 
2.43.0


From 5632b9378fb955d2231c8bb6e139aec6e0ed287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 26/56] fix: schedule the read a full write buffer waits for

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..b463e8b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -207,6 +207,7 @@ void Controller::ScheduleTransaction() {
     std::vector<Transaction> &queue =
         is_unified_queue_ ? unified_queue_
                           : write_draining_ > 0 ? write_buffer_ : read_queue_;
+    bool reads_first = false;
     for (auto it = queue.begin(); it != queue.end(); it++) {
         auto cmd = TransToCommand(*it);
         if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
@@ -215,6 +216,7 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    reads_first = true;
                     break;
                 }
                 write_draining_ -= 1;
@@ -224,6 +226,19 @@ void Controller::ScheduleTransaction() {
             break;
         }
     }
+
+    // the read a write depends on may still be waiting to be scheduled
+    if (reads_first) {
+        for (auto it = read_queue_.begin(); it != read_queue_.end(); it++) {
+            auto cmd = TransToCommand(*it);
+            if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
+                                             cmd.Bank())) {
+                cmd_queue_.AddCommand(cmd);
+                read_queue_.erase(it);
+                break;
+            }
+        }
+    }
 }
 
 void Controller::IssueCommand(const Command &cmd) {
-- 
2.43.0


From 82ddf3cd697ca6c73e037f41d19e26ef6902c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 27/56] fix: do not lose a command that cannot share the cycle

---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 7 ++++++-
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h  | 2 +-
 rad-sim/sim/dram/DRAMsim3/src/controller.cc    | 8 +++-----
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index f121d28..f5742c2 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -33,7 +33,7 @@ CommandQueue::CommandQueue(int channel_id, const Config& config,
     }
 }
 
-Command CommandQueue::GetCommandToIssue() {
+Command CommandQueue::GetCommandToIssue(const Command& issued) {
     for (int i = 0; i < num_queues_; i++) {
         auto& queue = GetNextQueue();
         // if we're refresing, skip the command queues that are involved
@@ -44,6 +44,11 @@ Command CommandQueue::GetCommandToIssue() {
         }
         auto cmd = GetFirstReadyInQueue(queue);
         if (cmd.IsValid()) {
+            // leave a command that cannot share the cycle in its queue
+            if (issued.IsValid() &&
+                cmd.IsReadWrite() == issued.IsReadWrite()) {
+                return Command();
+            }
             if (cmd.IsReadWrite()) {
                 EraseRWCommand(cmd);
             }
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 5bc8d3f..725b547 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -18,7 +18,7 @@ class CommandQueue {
    public:
     CommandQueue(int channel_id, const Config& config,
                  const ChannelState& channel_state, SimpleStats& simple_stats);
-    Command GetCommandToIssue();
+    Command GetCommandToIssue(const Command& issued = Command());
     Command FinishRefresh();
     void ClockTick() { clk_ += 1; };
     bool WillAcceptCommand(int rank, int bankgroup, int bank) const;
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index b463e8b..d08b14e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -82,12 +82,10 @@ void Controller::ClockTick() {
         cmd_issued = true;
 
         if (config_.enable_hbm_dual_cmd) {
-            auto second_cmd = cmd_queue_.GetCommandToIssue();
+            auto second_cmd = cmd_queue_.GetCommandToIssue(cmd);
             if (second_cmd.IsValid()) {
-                if (second_cmd.IsReadWrite() != cmd.IsReadWrite()) {
-                    IssueCommand(second_cmd);
-                    simple_stats_.Increment("hbm_dual_cmds");
-                }
+                IssueCommand(second_cmd);
+                simple_stats_.Increment("hbm_dual_cmds");
             }
         }
     }
-- 
2.43.0


From 771becebc5d815ea76696b1bc017d121a9c8699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 28/56] fix: do not let activates of other banks hold back
 per-bank refresh

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index ad825b2..20539b8 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -194,12 +194,12 @@ Timing::Timing(const Config& config)
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_l},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_l}};
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_s},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_s}};
 
     // command PRECHARGE
     same_bank[static_cast<int>(CommandType::PRECHARGE)] =
-- 
2.43.0


From 52fcfc507dbcb8c2516a6503a4532432e6ce1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 29/56] fix: keep the tag of a write response in step with the
 response

---
 rad-sim/sim/dram/mem_controller.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index daaa9b9..646805f 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -452,6 +452,9 @@ void mem_controller::Tick() {
                                        0);
       mem_channels[ch_id].rvalid.write(_output_read_responses[ch_id].size() >
                                        0);
+      if (_output_write_responses[ch_id].size() > 0) {
+        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
+      }
       if (_output_read_responses[ch_id].size() > 0) {
         mem_channels[ch_id].rdata.write(
             std::get<1>(_output_read_responses[ch_id].front()));
@@ -600,10 +603,6 @@ void mem_controller::Assign() {
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
                                         read_output_queue_ok);
-
-      if (_output_write_responses[ch_id].size() > 0) {
-        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
-      }
     }
   }
 }
-- 
2.43.0


From fae36d9745cc76e85aad9f0ee591887555fafa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 30/56] fix: do not issue a write before its address has
 arrived

---
 rad-sim/sim/dram/mem_controller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 646805f..4c1f938 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -514,7 +514,8 @@ void mem_controller::MemTick() {
                 std::make_tuple(read_addr, resp_addr, last));
           }
           // Issue write request to DRAMsim
-        } else if (_write_data_queue[ch_id].size() > 0) {
+        } else if (_write_data_queue[ch_id].size() > 0 &&
+                   _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -538,7 +539,8 @@ void mem_controller::MemTick() {
     } else {
       for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
         // Issue write request to DRAMsim
-        if (_write_data_queue[ch_id].size() > 0) {
+        if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
-- 
2.43.0


From eddeed539adcd18654eed93bf95f8a28d112fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 31/56] fix: compute the inter-RAD bandwidth share as the
 fraction it is

---
 rad-sim/config.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index d935732..fccfd46 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -318,13 +318,9 @@ def get_fraction(input_val):
     if remainder == 0: #whole number
         return (int(input_val), 1)
     else:
-        count = 0
-        while (remainder % 1 != 0):
-            remainder *= 10
-            count += 1
-        b = count * 10
-        a = (( input_val-(input_val%1) ) * b) + remainder
-        return (int(a), b)
+        b = 1000
+        a = (int(input_val) * b) + round(remainder * b)
+        return (a, b)
 
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
-- 
2.43.0


From 36882d7fcd7c52ada5bd27fa714ec6052e6adc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 32/56] fix: look up the node count of anynet NoCs where it is
 kept

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index fccfd46..0646e5a 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -146,7 +146,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_knobs[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From c6f68ea62cd2b075f3503b519a906719c2c1c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 33/56] fix: make the default NoC type and VC count usable

---
 rad-sim/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 0646e5a..95b378e 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -480,14 +480,14 @@ if __name__ == "__main__":
     # List default parameter values
     booksim_params = {
         "radsim_root_dir": os.getcwd(),
-        "noc_type": "2d",
+        "noc_type": ["2d"],
         "noc_num_nocs": 1,
         "noc_topology": ["mesh"],
         "noc_anynet_file": [os.getcwd() + "/sim/noc/anynet_file"],
         "noc_dim_x": [8],
         "noc_dim_y": [8],
         "noc_routing_func": ["dim_order"],
-        "noc_vcs": [5],
+        "noc_vcs": [3],
         "noc_vc_buffer_size": [8],
         "noc_output_buffer_size": [8],
         "noc_num_packet_types": [3],
-- 
2.43.0


From 9acf616a6f69e4568c301d97221308e07c125ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 34/56] fix: make shared widths large enough for every RAD
 configuration

---
 rad-sim/config.py | 48 ++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 95b378e..1d5b0b9 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -12,6 +12,7 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
         config = yaml.safe_load(yaml_config)
     
     config_counter = 0
+    shared_params = set() #header params set by a config section
     for config_section in config:
         print(config_section + ':')
         if 'config' in config_section:
@@ -27,11 +28,15 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
                     if param_name in booksim_params[config_counter]:
                         booksim_params[config_counter][param_name] = param_value
                         invalid_param = False
-                    if config_counter == 0 and param_name in radsim_header_params: #all header params are shared across RADs, so only need to store one time
-                        radsim_header_params[param_name] = param_value
+                    if param_name in radsim_header_params: #all header params are shared across RADs, so they have to suffice for each of them
+                        if param_name in shared_params and not isinstance(param_value, list):
+                            radsim_header_params[param_name] = max(radsim_header_params[param_name], param_value)
+                        else:
+                            radsim_header_params[param_name] = deepcopy(param_value)
+                        shared_params.add(param_name)
                         invalid_param = False
                     if param_name in radsim_knobs[config_counter]:
-                        radsim_knobs[config_counter][param_name] = param_value
+                        radsim_knobs[config_counter][param_name] = deepcopy(param_value)
                         invalid_param = False
 
                     if invalid_param:
@@ -49,10 +54,10 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
                         booksim_params[i][param_name] = param_value
                         invalid_param = False
                     if param_name in radsim_header_params: #all header params are shared across RADs, so only need to store one time
-                        radsim_header_params[param_name] = param_value
+                        radsim_header_params[param_name] = deepcopy(param_value)
                         invalid_param = False
                     if param_name in radsim_knobs[i]:
-                        radsim_knobs[i][param_name] = param_value
+                        radsim_knobs[i][param_name] = deepcopy(param_value)
                         invalid_param = False
                     if invalid_param:
                         print("Config Error: Parameter " + param_name + " is invalid!")
@@ -196,7 +201,16 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             booksim_config_file.close()
 
 
-def generate_radsim_params_header(radsim_header_params):
+def get_max_over_rads(param, radsim_header_params, *params_per_rad):
+    '''Returns the largest value that any NoC of any RAD has for a header parameter'''
+    values = list(radsim_header_params[param])
+    for params in params_per_rad:
+        for rad_params in params:
+            values += rad_params.get(param, [])
+    return max(values)
+
+
+def generate_radsim_params_header(radsim_header_params, booksim_params, radsim_knobs):
     radsim_params_header_file = open(radsim_header_params["radsim_root_dir"] + "/sim/radsim_defines.hpp", "w")
     radsim_params_header_file.write("#pragma once\n\n")
     radsim_params_header_file.write("// clang-format off\n")
@@ -207,16 +221,10 @@ def generate_radsim_params_header(radsim_header_params):
 
     radsim_params_header_file.write("// NoC-related Parameters\n")
     # Finding maximum NoC payload width and setting its definition
-    max_noc_payload_width = 0
-    for w in radsim_header_params["noc_payload_width"]:
-        if w > max_noc_payload_width:
-            max_noc_payload_width = w
+    max_noc_payload_width = get_max_over_rads("noc_payload_width", radsim_header_params, radsim_knobs)
     radsim_params_header_file.write("#define NOC_LINKS_PAYLOAD_WIDTH   " + str(max_noc_payload_width) + "\n")
     # Finding maximum NoC VC count and setting definition for VC ID bitwidth
-    max_noc_vcs = 0
-    for v in radsim_header_params["noc_vcs"]:
-        if v > max_noc_vcs:
-            max_noc_vcs = v
+    max_noc_vcs = get_max_over_rads("noc_vcs", radsim_header_params, booksim_params)
     if max_noc_vcs == 1:
         max_vc_id_bitwidth = 1
     else:
@@ -227,20 +235,14 @@ def generate_radsim_params_header(radsim_header_params):
     radsim_params_header_file.write("#define NOC_LINKS_PACKETID_WIDTH  " + str(packet_id_bitwidth) + "\n")
     # Finding maximum number of packet types and setting definition for type ID bitwidth & generic packet type mappings
     # to Booksim flit types
-    max_num_types = 0
-    for t in radsim_header_params["noc_num_packet_types"]:
-        if t > max_num_types:
-            max_num_types = t
+    max_num_types = get_max_over_rads("noc_num_packet_types", radsim_header_params, booksim_params)
     if (max_num_types == 1):
         max_type_id_bitwidth = 1
     else:
         max_type_id_bitwidth = int(math.ceil(math.log(max_num_types, 2)))
     radsim_params_header_file.write("#define NOC_LINKS_TYPEID_WIDTH    " + str(max_type_id_bitwidth) + "\n")
     # Finding maximum NoC node count and setting definition for destination bitwidth
-    max_num_nodes = 0
-    for n in radsim_header_params["noc_num_nodes"]:
-        if n > max_num_nodes:
-            max_num_nodes = n
+    max_num_nodes = get_max_over_rads("noc_num_nodes", radsim_header_params, radsim_knobs)
     max_destination_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
     max_destination_field_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) #Bitwidth of a single field of the destination described above.
     radsim_params_header_file.write("#define NOC_LINKS_DEST_WIDTH      " + str(max_destination_bitwidth) + "\n")
@@ -567,7 +569,7 @@ if __name__ == "__main__":
 
     # Generate RAD-Sim input files
     generate_booksim_config_files(booksim_params_per_rad, radsim_header_params, radsim_knobs_per_rad, cluster_knobs)
-    generate_radsim_params_header(radsim_header_params)
+    generate_radsim_params_header(radsim_header_params, booksim_params_per_rad, radsim_knobs_per_rad)
     generate_radsim_config_file(radsim_knobs_per_rad, cluster_knobs)
     generate_radsim_main(design_names, radsim_knobs_per_rad)
 
-- 
2.43.0


From 4902cf579ae4d157a7d59e83b3e1993823bb3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 35/56] fix: derive the node counts of all NoCs

---
 rad-sim/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 1d5b0b9..a036b07 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -102,6 +102,8 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_name = cluster_knobs["cluster_configs"][config_idx] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
+        for num_nodes in (radsim_header_params["noc_num_nodes"], radsim_knobs[curr_config_num]["noc_num_nodes"]):
+            num_nodes.extend([0] * (booksim_params[curr_config_num]["noc_num_nocs"] - len(num_nodes))) #one entry per NoC
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
             booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
-- 
2.43.0


From 5e8d1cc8a9565a2ddbc08940e1670d49cea364e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 36/56] fix: make destination fields wide enough for the RAD
 identifiers

---
 rad-sim/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index a036b07..7cd4b78 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -245,11 +245,11 @@ def generate_radsim_params_header(radsim_header_params, booksim_params, radsim_k
     radsim_params_header_file.write("#define NOC_LINKS_TYPEID_WIDTH    " + str(max_type_id_bitwidth) + "\n")
     # Finding maximum NoC node count and setting definition for destination bitwidth
     max_num_nodes = get_max_over_rads("noc_num_nodes", radsim_header_params, radsim_knobs)
-    max_destination_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
-    max_destination_field_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) #Bitwidth of a single field of the destination described above.
+    max_destination_field_bitwidth = max(1, int(math.ceil(math.log(max(max_num_nodes, cluster_knobs["num_rads"]), 2)))) #Bitwidth of a single field of the destination described below.
+    max_destination_bitwidth = max_destination_field_bitwidth * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
     radsim_params_header_file.write("#define NOC_LINKS_DEST_WIDTH      " + str(max_destination_bitwidth) + "\n")
 
-    dest_interface_bitwidth = int(math.ceil(math.log(radsim_header_params["noc_max_num_router_dest_interfaces"], 2)))
+    dest_interface_bitwidth = max(1, int(math.ceil(math.log(radsim_header_params["noc_max_num_router_dest_interfaces"], 2))))
     radsim_params_header_file.write("#define NOC_LINKS_DEST_INTERFACE_WIDTH " + str(dest_interface_bitwidth) + "\n")
     radsim_params_header_file.write("#define NOC_LINKS_WIDTH           (NOC_LINKS_PAYLOAD_WIDTH + NOC_LINKS_VCID_WIDTH \
         + NOC_LINKS_PACKETID_WIDTH + NOC_LINKS_DEST_WIDTH + NOC_LINKS_DEST_INTERFACE_WIDTH)\n\n")
-- 
2.43.0


From 728057a2211d85545ed0c22e2762d5d37789cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 37/56] fix: reject parameters of unknown sections

---
 rad-sim/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 7cd4b78..1569838 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -72,6 +72,9 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
                 else:
                     print("Config Error: Parameter " + param_name + " is invalid!")
                     exit(1)
+            else:
+                print("Config Error: Parameter " + str(param_category) + " of section " + config_section + " is invalid!")
+                exit(1)
         if 'config' in config_section:
             config_counter += 1
 
-- 
2.43.0


From 3ea5c3b4e1ff972517270a72cb76db4f9cc412c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 38/56] fix: reject clusters whose number of RADs and of
 configurations differ

---
 rad-sim/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 1569838..937a45a 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -84,6 +84,10 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
     if config_counter != num_configs:
         print('number of unique config sections in config YAML file does not match commandline argument')
         exit(-1)
+
+    if len(cluster_knobs["cluster_configs"]) != cluster_knobs["num_rads"]:
+        print("Config Error: cluster_configs has to name one configuration per RAD!")
+        exit(1)
     
 
 def print_config(booksim_params, radsim_header_params, radsim_knobs):
-- 
2.43.0


From 120400307c85ab97e1919fb7a774484e16048927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 39/56] fix: read the configuration of the first design named

---
 rad-sim/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 937a45a..f33094d 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -473,9 +473,10 @@ if __name__ == "__main__":
         print("Invalid arguments: python config.py <unique_design_name> <[optional] other_unique_design_names>")
         exit(1)
 
-    design_names = set() #No duplicating design include statements and cmake commands
+    design_names = [] #No duplicating design include statements and cmake commands
     for i in range(1, len(sys.argv)): #skip 0th argument (that is current program name)
-        design_names.add(sys.argv[i])
+        if sys.argv[i] not in design_names:
+            design_names.append(sys.argv[i])
         print(sys.argv[i])
 
     # Check if design directory exists
@@ -484,7 +485,8 @@ if __name__ == "__main__":
             print("Cannot find design directory under rad-sim/example-designs/")
             exit(1)
 
-    # Point to YAML configuration file
+    # Point to YAML configuration file of the first design
+    design_name = design_names[0]
     config_filename = f"{os.getcwd()}/example-designs/{design_name}/config.yml"
     config_names = []
 
-- 
2.43.0


From 8f6353a46c9dc4bf7210902eb1789331f73209a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 40/56] fix: keep trace names with spaces in one piece

---
 rad-sim/config.py             | 3 ++-
 rad-sim/sim/radsim_config.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f33094d..e7c2718 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -368,7 +368,8 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
         
         if isinstance(cluster_knobs[param], list):
             for value in cluster_knobs[param]:
-                radsim_config_file.write(str(value) + " ")
+                value = str(value)
+                radsim_config_file.write(('"' + value + '"' if ' ' in value else value) + " ")
             radsim_config_file.write("\n")
         else:
             radsim_config_file.write(str(cluster_knobs[param]) + "\n")
diff --git a/rad-sim/sim/radsim_config.cpp b/rad-sim/sim/radsim_config.cpp
index 7d6ec00..af7477e 100644
--- a/rad-sim/sim/radsim_config.cpp
+++ b/rad-sim/sim/radsim_config.cpp
@@ -1,4 +1,5 @@
 #include "radsim_config.hpp"
+#include <iomanip>
 
 RADSimConfig::RADSimConfig() {}
 RADSimConfig::~RADSimConfig() {}
@@ -428,7 +429,7 @@ void ParseRADSimKnobs(const std::string &knobs_filename) {
     } else if (param == "telemetry_traces") {
       std::vector<std::string> value;
       std::string value_element;
-      while (getline(ss, value_element, ' ')) {
+      while (ss >> std::quoted(value_element)) {
         value.push_back(value_element);
       }
       radsim_config.AddStringVectorKnobShared(param, value);
-- 
2.43.0


From c2d54df034f082440541f04ea3cd11df55c2081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 41/56] fix: ignore events of traces that are not configured

---
 rad-sim/sim/radsim_telemetry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index 29fb33f..c5366a0 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -214,6 +214,8 @@ void SimTraceRecording::SetTraceRecordingSettings(std::string filename, unsigned
 }
 
 void SimTraceRecording::record_event(unsigned int trace_id) {
+  // Events of traces that are not configured are not recorded
+  if (trace_id >= trace_cycles.size()) return;
   trace_cycles[trace_id].push_back(GetSimulationCycle());
 }
 
-- 
2.43.0


From 857c155c04dc1c90d47994e01ebab2d76d319841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:43 +0000
Subject: [PATCH 42/56] fix: report the failure of any RAD's design

---
 rad-sim/config.py              |  4 ++--
 rad-sim/sim/main.cpp           |  2 +-
 rad-sim/sim/radsim_cluster.cpp | 10 ++++++++++
 rad-sim/sim/radsim_cluster.hpp |  1 +
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index e7c2718..ee9e99b 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -441,8 +441,8 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tsim_trace_probe.dump_traces();\n")
     main_cpp_file.write("\t(void)argc;\n")
     main_cpp_file.write("\t(void)argv;\n")
-    #device with RAD ID 0 is special as it is used to generate simulation exit codes
-    main_cpp_file.write("\treturn cluster->all_rads[0]->GetSimExitCode();\n")
+    #a failure reported by the design of any RAD fails the simulation
+    main_cpp_file.write("\treturn cluster->GetSimExitCode();\n")
     main_cpp_file.write("}\n")
 
 def prepare_build_dir(design_names):
diff --git a/rad-sim/sim/main.cpp b/rad-sim/sim/main.cpp
index 3384f44..c166d9a 100644
--- a/rad-sim/sim/main.cpp
+++ b/rad-sim/sim/main.cpp
@@ -70,5 +70,5 @@ int sc_main(int argc, char *argv[]) {
 	sim_trace_probe.dump_traces();
 	(void)argc;
 	(void)argv;
-	return cluster->all_rads[0]->GetSimExitCode();
+	return cluster->GetSimExitCode();
 }
diff --git a/rad-sim/sim/radsim_cluster.cpp b/rad-sim/sim/radsim_cluster.cpp
index 74a2288..ea568c0 100644
--- a/rad-sim/sim/radsim_cluster.cpp
+++ b/rad-sim/sim/radsim_cluster.cpp
@@ -45,6 +45,16 @@ RADSimCluster::AllRADsNotDone() {
     return false;
 }
 
+int
+RADSimCluster::GetSimExitCode() {
+    for (int rad_id = 0; rad_id < num_rads; rad_id++) {
+        if (all_rads[rad_id]->GetSimExitCode() != 0) {
+            return all_rads[rad_id]->GetSimExitCode();
+        }
+    }
+    return 0;
+}
+
 void
 RADSimCluster::StoreSystem(RADSimDesignSystem* system) {
     all_systems.push_back(system);
diff --git a/rad-sim/sim/radsim_cluster.hpp b/rad-sim/sim/radsim_cluster.hpp
index d4f4456..24aa157 100644
--- a/rad-sim/sim/radsim_cluster.hpp
+++ b/rad-sim/sim/radsim_cluster.hpp
@@ -35,5 +35,6 @@ class RADSimCluster {
         void SetTopo(inter_rad_topo_type inter_rad_topo);
         void SetConnModel(inter_rad_conn_model_type inter_rad_topo);
         bool AllRADsNotDone();
+        int GetSimExitCode(); //nonzero if the design of any RAD reported a failure
         void StoreSystem(RADSimDesignSystem* system);
 };
\ No newline at end of file
-- 
2.43.0


From 9edc443445539880b332aac15f61fb0be6ae6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 43/56] fix: match Verilog keywords as whole words only

---
 rad-sim/scripts/verilog_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index ee7bfc4..895f125 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -20,9 +20,9 @@ verilog_tokens = {
     (r'//.*\n', None),
   ],
   'module': [
-    (r'parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
-    (r'(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
-    (r'endmodule', 'end_module', '#pop'),
+    (r'\bparameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
+    (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
+    (r'\bendmodule\b', 'end_module', '#pop'),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
@@ -43,7 +43,7 @@ verilog_tokens = {
     (r'\s*\)', None, '#pop'),
   ],
   'module_port': [
-    (r'\s*(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start'),
+    (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
-- 
2.43.0


From 23a1813992e7318467af9f725c79312e08e29942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 44/56] fix: skip block comments between Verilog ports

---
 rad-sim/scripts/verilog_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index 895f125..49a0239 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -46,6 +46,7 @@ verilog_tokens = {
     (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
   ],
-- 
2.43.0


From 99b7f415d54b71436c275893435bf37b2cd97f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 45/56] fix: do not list arguments of tasks and functions or
 words of strings as Verilog ports

---
 rad-sim/scripts/verilog_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index 49a0239..995ab32 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -23,6 +23,9 @@ verilog_tokens = {
     (r'\bparameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
     (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
     (r'\bendmodule\b', 'end_module', '#pop'),
+    (r'\b(?:import|extern)\b[^;]*;', None),
+    (r'\b(?:task|function)\b', None, 'subroutine'),
+    (r'"(?:\\.|[^"\\\n])*"', None),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
@@ -51,6 +54,14 @@ verilog_tokens = {
     (r'//.*\n', None),
   ],
 
+  # Arguments of tasks and functions are no ports of the module
+  'subroutine': [
+    (r'\bend(?:task|function)\b', None, '#pop'),
+    (r'/\*', 'block_comment', 'block_comment'),
+    (r'//.*\n', None),
+    (r'"(?:\\.|[^"\\\n])*"', None),
+  ],
+
   'block_comment': [
     (r'\*/', 'end_comment', '#pop'),
   ],
-- 
2.43.0


From 3c0ee564077946010ca73ae83911438517da80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 46/56] fix: compute the width of ascending Verilog ranges

---
 rad-sim/scripts/generate_port_mappings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/generate_port_mappings.py b/rad-sim/scripts/generate_port_mappings.py
index 29ede96..52e6bce 100644
--- a/rad-sim/scripts/generate_port_mappings.py
+++ b/rad-sim/scripts/generate_port_mappings.py
@@ -32,11 +32,11 @@ def determine_port_width(port):
         if port_properties[0] == "reg" or port_properties[0] == "logic":
             return 1
         elif indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+            return abs(int(indices.groups()[0]) - int(indices.groups()[1])) + 1
     elif len(port_properties) == 2:
         indices = re.match(verilog_range_regex, port_properties[1])
         if indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+            return abs(int(indices.groups()[0]) - int(indices.groups()[1])) + 1
     
     return "?"
 
-- 
2.43.0


From 49a46c758808e5a75b5850eb96e1fbc394dcceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 47/56] fix: keep the type of Verilog ports apart from that of
 parameters

---
 rad-sim/scripts/verilog_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index 995ab32..f222f4f 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -139,6 +139,7 @@ def parse_verilog(text):
   saved_type = None
   mode = 'input'
   ptype = 'wire'
+  param_type = ''
 
   metacomments = []
   parameters = []
@@ -182,10 +183,10 @@ def parse_verilog(text):
       if vec_range is not None:
         new_ptype += ' ' + vec_range
 
-      ptype = new_ptype
+      param_type = new_ptype
 
     elif action == 'param_item':
-      generics.append(VerilogParameter(groups[0], 'in', ptype))
+      generics.append(VerilogParameter(groups[0], 'in', param_type))
 
     elif action == 'module_port_start':
       new_mode, net_type, signed, vec_range = groups
-- 
2.43.0


From 628299380eb6afcfeed4d65e620433e27129b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:59 +0000
Subject: [PATCH 48/56] fix: do not overflow the name buffer of generated
 wrappers

---
 rad-sim/scripts/generate_wrapper.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index f9cc9de..42e2cb4 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -26,10 +26,8 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
 
       wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name) : RADSimModule(name) {\n")
 
-      wrapper_cpp_file.write("\t" + "char " + design_inst + "_name[25];\n")
-      wrapper_cpp_file.write("\tstd::string " + design_inst + "_name_str = std::string(name);\n")
-      wrapper_cpp_file.write("\tstd::strcpy(" + design_inst + "_name, " + design_inst + "_name_str.c_str());\n\n")
-      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name};\n")
+      wrapper_cpp_file.write("\tstd::string " + design_inst + "_name = std::string(name);\n")
+      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name.c_str()};\n")
 
       # inputs and outputs connections
       if not design_name in mappings:
-- 
2.43.0


From 18907791bece1aaded6ee217345498b04cc77ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:59 +0000
Subject: [PATCH 49/56] fix: generate wrappers for the current RAD-Sim module
 interface

---
 rad-sim/scripts/generate_wrapper.py | 61 ++++++++++++++---------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index 42e2cb4..1a59dc5 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -24,7 +24,8 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
     with open(modules_folder / (design_name + ".cpp"), "w") as wrapper_cpp_file:
       wrapper_cpp_file.write("#include <" + design_name + ".hpp>\n\n")
 
-      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name) : RADSimModule(name) {\n")
+      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design) : RADSimModule(name, radsim_design) {\n")
+      wrapper_cpp_file.write("\tthis->radsim_design = radsim_design;\n")
 
       wrapper_cpp_file.write("\tstd::string " + design_inst + "_name = std::string(name);\n")
       wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name.c_str()};\n")
@@ -38,8 +39,7 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
         for port in mappings[design_name]:
           wrapper_cpp_file.write("\t" + design_inst + "->" + port[2] + "(" + port[3] + ");\n")
 
-      if axis_roles != None or aximm_roles != None:
-        wrapper_cpp_file.write("\n\tthis->RegisterModuleInfo();\n")
+      wrapper_cpp_file.write("\n\tthis->RegisterModuleInfo();\n")
       wrapper_cpp_file.write("}\n\n")
 
       wrapper_cpp_file.write(design_name + "::~" + design_name + "() {\n")
@@ -47,31 +47,30 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
       wrapper_cpp_file.write("\tdelete " + design_inst + ";\n")
       wrapper_cpp_file.write("}\n\n")
 
-      if axis_roles != None or aximm_roles != None:
-        wrapper_cpp_file.write("void " + design_name + "::RegisterModuleInfo() {\n")
-        wrapper_cpp_file.write("\tstd::string port_name;\n")
-        wrapper_cpp_file.write("\t_num_noc_axis_slave_ports = 0;\n")
-        wrapper_cpp_file.write("\t_num_noc_axis_master_ports = 0;\n")
-        wrapper_cpp_file.write("\t_num_noc_aximm_slave_ports = 0;\n")
-        wrapper_cpp_file.write("\t_num_noc_aximm_master_ports = 0;\n\n")
-
-        if axis_roles != None:
-          for axis_interface, axis_role in axis_roles.items():
-            wrapper_cpp_file.write("\tport_name = module_name + \"." + axis_interface + "\";\n")
-            if axis_role == "master":
-                wrapper_cpp_file.write("\tRegisterAxisMasterPort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
-            else:
-                wrapper_cpp_file.write("\tRegisterAxisSlavePort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
-
-        if aximm_roles != None:
-          for aximm_interface, aximm_role in aximm_roles.items():
-            wrapper_cpp_file.write("\tport_name = module_name + \"." + aximm_interface + "\";\n")
-            if aximm_role == "master":
-                wrapper_cpp_file.write("\tRegisterAximmMasterPort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
-            else:
-                wrapper_cpp_file.write("\tRegisterAximmSlavePort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
-        
-        wrapper_cpp_file.write("}\n")
+      wrapper_cpp_file.write("void " + design_name + "::RegisterModuleInfo() {\n")
+      wrapper_cpp_file.write("\tstd::string port_name;\n")
+      wrapper_cpp_file.write("\t_num_noc_axis_slave_ports = 0;\n")
+      wrapper_cpp_file.write("\t_num_noc_axis_master_ports = 0;\n")
+      wrapper_cpp_file.write("\t_num_noc_aximm_slave_ports = 0;\n")
+      wrapper_cpp_file.write("\t_num_noc_aximm_master_ports = 0;\n\n")
+
+      if axis_roles != None:
+        for axis_interface, axis_role in axis_roles.items():
+          wrapper_cpp_file.write("\tport_name = module_name + \"." + axis_interface + "\";\n")
+          if axis_role == "master":
+              wrapper_cpp_file.write("\tRegisterAxisMasterPort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
+          else:
+              wrapper_cpp_file.write("\tRegisterAxisSlavePort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
+
+      if aximm_roles != None:
+        for aximm_interface, aximm_role in aximm_roles.items():
+          wrapper_cpp_file.write("\tport_name = module_name + \"." + aximm_interface + "\";\n")
+          if aximm_role == "master":
+              wrapper_cpp_file.write("\tRegisterAximmMasterPort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
+          else:
+              wrapper_cpp_file.write("\tRegisterAximmSlavePort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
+      
+      wrapper_cpp_file.write("}\n")
 
 # Generates the accompanying C++ header wrapper file
 def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, aximm_roles):
@@ -98,6 +97,7 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
       wrapper_hpp_file.write("private:\n")
       wrapper_hpp_file.write("\t" + verilated_design + "* " + design_inst + ";\n\n")
       wrapper_hpp_file.write("public:\n")
+      wrapper_hpp_file.write("\tRADSimDesignContext* radsim_design;\n")
 
       # inputs and outputs
       if not design_name in mappings:
@@ -129,12 +129,11 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
           else:
               wrapper_hpp_file.write("\taximm_slave_port " + aximm_interface + ";\n")
 
-      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name);\n")
+      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design);\n")
       wrapper_hpp_file.write("\t~" + design_name + "();\n\n")
 
       wrapper_hpp_file.write("\tSC_HAS_PROCESS(" + design_name + ");\n")
-      if axis_roles != None or aximm_roles != None:
-        wrapper_hpp_file.write("\tvoid RegisterModuleInfo();\n")
+      wrapper_hpp_file.write("\tvoid RegisterModuleInfo();\n")
       wrapper_hpp_file.write("};\n")
 
 # Parses the port mappings file
-- 
2.43.0


From 901ad317ed31dcd4ae694efd99705a4ff2a5ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:13 +0000
Subject: [PATCH 50/56] fix: reject inconsistent port maps

---
 rad-sim/scripts/generate_wrapper.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index 1a59dc5..b398cd0 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -136,6 +136,13 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
       wrapper_hpp_file.write("\tvoid RegisterModuleInfo();\n")
       wrapper_hpp_file.write("};\n")
 
+# Adds a mapping to a module. Each RTL and each RAD-Sim port can only be mapped once.
+def add_port_mapping(mappings, module, mapping):
+  for other in mappings[module]:
+    if other[2] == mapping[2]: raise ValueError("Port " + mapping[2] + " of module " + module + " is mapped more than once.")
+    if other[3] == mapping[3]: raise ValueError("RAD-Sim port " + mapping[3] + " of module " + module + " is mapped more than once.")
+  mappings[module].append(mapping)
+
 # Parses the port mappings file
 def read_port_mappings(port_mapping_file):
   current_module = ""
@@ -153,6 +160,7 @@ def read_port_mappings(port_mapping_file):
         if len(components) != 2: raise ValueError("A line specifying a module can only contain 2 parameters separated by a whitespace.")
 
         current_module = components[1]
+        if current_module in mappings: raise ValueError("Module " + current_module + " is specified more than once.")
         mappings[current_module] = [] # insert new dictionary entry
         print("Found port mappings for module", current_module)
       elif components[0] == "axis": # The port mapping line specifies an AXI-S port
@@ -162,8 +170,10 @@ def read_port_mappings(port_mapping_file):
 
         # Add the parsed data to data structures to be used during wrapper generation
         (keyword, axis_role, rtl_port, axis_interface, axis_port) = components
+        if axis_role != "master" and axis_role != "slave": raise ValueError("The role of an AXI-S interface must be either master or slave.")
+        if axis_interface in aximm_roles.get(current_module, {}): raise ValueError("Interface " + axis_interface + " can either be AXI-S or AXI-MM.")
         radsim_port = axis_interface + "." + axis_port
-        mappings[current_module].append((keyword, axis_role, rtl_port, radsim_port))
+        add_port_mapping(mappings, current_module, (keyword, axis_role, rtl_port, radsim_port))
         if current_module not in axis_roles:
           axis_roles[current_module] = {}
         if axis_interface not in axis_roles[current_module]:
@@ -179,8 +189,10 @@ def read_port_mappings(port_mapping_file):
 
         # Add the parsed data to data structures to be used during wrapper generation
         (keyword, aximm_role, rtl_port, aximm_interface, aximm_port) = components
+        if aximm_role != "master" and aximm_role != "slave": raise ValueError("The role of an AXI-MM interface must be either master or slave.")
+        if aximm_interface in axis_roles.get(current_module, {}): raise ValueError("Interface " + aximm_interface + " can either be AXI-S or AXI-MM.")
         radsim_port = aximm_interface + "." + aximm_port
-        mappings[current_module].append((keyword, aximm_role, rtl_port, radsim_port))
+        add_port_mapping(mappings, current_module, (keyword, aximm_role, rtl_port, radsim_port))
         if current_module not in aximm_roles:
           aximm_roles[current_module] = {}
         if aximm_interface not in aximm_roles[current_module]:
@@ -198,10 +210,10 @@ def read_port_mappings(port_mapping_file):
         if len(components) != 4: raise ValueError("Each line specifying a port can only contain 4 parameters separated by a whitespace.")
         if port_mode != "input" and port_mode != "output" and port_mode != "inout": raise ValueError("The first argument of each port must be either axis/aximm/input/output/inout.")
         if port_width == "?": raise ValueError("Automated port mapping failed for " + components[2] + ". Manually add the port size.")
-        if not port_width.isnumeric(): raise ValueError("Port Width must be a number.")
+        if not port_width.isdecimal() or int(port_width) == 0: raise ValueError("Port Width must be a positive number.")
 
         port_mode = port_type_translation[port_mode] # translate input/output/inout to systemC types
-        mappings[current_module].append((port_mode, port_width, components[2], components[3]))
+        add_port_mapping(mappings, current_module, (port_mode, port_width, components[2], components[3]))
   return (mappings, axis_roles, aximm_roles)
 
 # Main function to generate wrapper files
-- 
2.43.0


From 2dffa6e10841589f68bf1780b83f88a0590f4532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 51/56] fix: add and multiply at the width of the data in the
 add and mult examples

---
 rad-sim/example-designs/add/modules/adder.cpp | 5 +++--
 rad-sim/example-designs/mult/modules/mult.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rad-sim/example-designs/add/modules/adder.cpp b/rad-sim/example-designs/add/modules/adder.cpp
index 5d8f1e0..35cbaff 100644
--- a/rad-sim/example-designs/add/modules/adder.cpp
+++ b/rad-sim/example-designs/add/modules/adder.cpp
@@ -48,8 +48,9 @@ void adder::Tick() {
         axis_adder_interface.tready.read()
     ){
         count_in_addends++;
-        uint64_t current_sum = adder_rolling_sum.to_uint64();
-        adder_rolling_sum = current_sum + axis_adder_interface.tdata.read().to_uint64();
+        sc_biguint<DATAW> current_sum = adder_rolling_sum;
+        sc_biguint<DATAW> addend = axis_adder_interface.tdata.read();
+        adder_rolling_sum = current_sum + addend;
         t_finished.write(axis_adder_interface.tlast.read());
         std::cout << module_name << ": Got Transaction " << count_in_addends << " on cycle " << curr_cycle << " (user = "
                   << axis_adder_interface.tuser.read().to_uint64() << ") (addend = "
diff --git a/rad-sim/example-designs/mult/modules/mult.cpp b/rad-sim/example-designs/mult/modules/mult.cpp
index f32020a..6256f99 100644
--- a/rad-sim/example-designs/mult/modules/mult.cpp
+++ b/rad-sim/example-designs/mult/modules/mult.cpp
@@ -43,8 +43,9 @@ void mult::Tick() {
     // Receiving transaction from AXI-S interface
     if (axis_mult_interface.tvalid.read() &&
         axis_mult_interface.tready.read()) {
-      uint64_t current_product = mult_rolling_product.to_uint64();
-      mult_rolling_product = current_product * axis_mult_interface.tdata.read().to_uint64();
+      sc_biguint<DATAW> current_product = mult_rolling_product;
+      sc_biguint<DATAW> factor = axis_mult_interface.tdata.read();
+      mult_rolling_product = current_product * factor;
       t_finished.write(axis_mult_interface.tlast.read());
       std::cout << module_name << ": Got Transaction on cycle " << curr_cycle << "(user = "
                 << axis_mult_interface.tuser.read().to_uint64() << ") (factor = "
-- 
2.43.0


From 0a779a8da2698c621c310df5fd7e9da932715c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 52/56] fix: stop the MLP engine's output when its queue runs
 empty after a zero vector

---
 rad-sim/example-designs/mlp/modules/mvm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp/modules/mvm.cpp b/rad-sim/example-designs/mlp/modules/mvm.cpp
index c412915..3565ec2 100644
--- a/rad-sim/example-designs/mlp/modules/mvm.cpp
+++ b/rad-sim/example-designs/mlp/modules/mvm.cpp
@@ -182,7 +182,8 @@ mvm::mvm(const sc_module_name &name, unsigned int id_mvm, unsigned int id_layer,
             << dl_fifo_rdata_signal << dm_fifo_rdata_signal
             << dest_layer_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
             << dest_mvm_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
-            << dl_fifo_rdata_signal << dm_fifo_rdata_signal;
+            << dl_fifo_rdata_signal << dm_fifo_rdata_signal
+            << ofifo_empty_signal;
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 
-- 
2.43.0


From 240f99fa518c5b6e35daeafcba25b5f4f28e10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 53/56] fix: report a wrong product of the mult example as a
 design failure

---
 rad-sim/example-designs/mult/mult_driver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/mult/mult_driver.cpp b/rad-sim/example-designs/mult/mult_driver.cpp
index 2ed5dfa..0813102 100644
--- a/rad-sim/example-designs/mult/mult_driver.cpp
+++ b/rad-sim/example-designs/mult/mult_driver.cpp
@@ -64,8 +64,12 @@ void mult_driver::sink() {
   std::cout << "Received " << response.read().to_uint64() << " product from the multiplier!" << std::endl;
   std::cout << "The actual product is " << actual_product << std::endl;
 
-  if (response.read() != actual_product) std::cout << "FAILURE - Output is not matching!" << std::endl;
-  else std::cout << "SUCCESS - Output is matching!" << std::endl;
+  if (response.read() != actual_product) {
+    std::cout << "FAILURE - Output is not matching!" << std::endl;
+    radsim_design->ReportDesignFailure();
+  } else {
+    std::cout << "SUCCESS - Output is matching!" << std::endl;
+  }
 
   end_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
   std::cout << "Simulation Cycles for Just Mult Portion = " << end_cycle - start_cycle << std::endl;
-- 
2.43.0


From 3aa546ca14ba63cabe011bfd82a1980eeb9d439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 54/56] fix: do not read an empty queue when a DLRM gather
 instruction takes two vectors of a channel

---
 .../modules/custom_feature_interaction.cpp    | 21 ++++++++++++-------
 .../modules/custom_feature_interaction.cpp    | 21 ++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
index 73dad93..5709b51 100644
--- a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
@@ -132,15 +132,22 @@ void custom_feature_interaction::data_vector_to_bv(
   }
 }
 
-bool are_ififos_ready(sc_vector<sc_signal<bool>> &ififo_empty,
-                      custom_feature_interaction_inst &inst) {
+bool are_ififos_ready(
+    sc_vector<sc_signal<bool>> &ififo_empty,
+    std::vector<std::queue<data_vector<int16_t>>> &input_fifos,
+    custom_feature_interaction_inst &inst) {
 
   bool ready = true;
-  for (auto &f : inst.xbar_schedule) {
+  // Vectors popped from each FIFO by the previous steps of this instruction
+  std::vector<unsigned int> popped(input_fifos.size(), 0);
+  for (unsigned int step = 0; step < inst.xbar_schedule.size(); step++) {
+    unsigned int f = inst.xbar_schedule[step];
     if (f == 0)
-      ready &= true;
-    else
-      ready &= !ififo_empty[f - 1].read();
+      continue;
+    ready &= !ififo_empty[f - 1].read() &&
+             input_fifos[f - 1].size() > popped[f - 1];
+    if (inst.pop_fifo[step])
+      popped[f - 1]++;
   }
   return ready;
 }
@@ -191,7 +198,7 @@ void custom_feature_interaction::Tick() {
 
     // Pop from input FIFOs
     bool ififos_ready =
-        are_ififos_ready(_ififo_empty, _instructions[_pc.read()]);
+        are_ififos_ready(_ififo_empty, _input_fifos, _instructions[_pc.read()]);
     if (ififos_ready && !_ofifo_full[_dest_ofifo.read()]) {
       data_vector<int16_t> ofifo_data_vector(_num_output_elements);
       custom_feature_interaction_inst instruction = _instructions[_pc.read()];
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
index e88dbef..98d2be0 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
@@ -132,15 +132,22 @@ void custom_feature_interaction::data_vector_to_bv(
   }
 }
 
-bool are_ififos_ready(sc_vector<sc_signal<bool>> &ififo_empty,
-                      custom_feature_interaction_inst &inst) {
+bool are_ififos_ready(
+    sc_vector<sc_signal<bool>> &ififo_empty,
+    std::vector<std::queue<data_vector<int16_t>>> &input_fifos,
+    custom_feature_interaction_inst &inst) {
 
   bool ready = true;
-  for (auto &f : inst.xbar_schedule) {
+  // Vectors popped from each FIFO by the previous steps of this instruction
+  std::vector<unsigned int> popped(input_fifos.size(), 0);
+  for (unsigned int step = 0; step < inst.xbar_schedule.size(); step++) {
+    unsigned int f = inst.xbar_schedule[step];
     if (f == 0)
-      ready &= true;
-    else
-      ready &= !ififo_empty[f - 1].read();
+      continue;
+    ready &= !ififo_empty[f - 1].read() &&
+             input_fifos[f - 1].size() > popped[f - 1];
+    if (inst.pop_fifo[step])
+      popped[f - 1]++;
   }
   return ready;
 }
@@ -192,7 +199,7 @@ void custom_feature_interaction::Tick() {
 
     // Pop from input FIFOs
     bool ififos_ready =
-        are_ififos_ready(_ififo_empty, _instructions[_pc.read()]);
+        are_ififos_ready(_ififo_empty, _input_fifos, _instructions[_pc.read()]);
     if (ififos_ready && !_ofifo_full[_dest_ofifo.read()]) {
       data_vector<int16_t> ofifo_data_vector(_num_output_elements);
       custom_feature_interaction_inst instruction = _instructions[_pc.read()];
-- 
2.43.0


From f257cff1c6627431a42e3d98110d1471b3235616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 55/56] fix: compare every element of an output in the DLRM
 examples' test benches

---
 rad-sim/example-designs/dlrm/dlrm_driver.cpp         | 2 +-
 rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/dlrm_driver.cpp b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
diff --git a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
-- 
2.43.0


From 933cbc14d5a0bb510b24f562d5528f7c2311399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 56/56] fix: report mismatching outputs of the NPU example as a
 design failure

---
 rad-sim/example-designs/npu/npu_driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/example-designs/npu/npu_driver.cpp b/rad-sim/example-designs/npu/npu_driver.cpp
index e51292d..7e372b2 100644
--- a/rad-sim/example-designs/npu/npu_driver.cpp
+++ b/rad-sim/example-designs/npu/npu_driver.cpp
@@ -192,6 +192,7 @@ void npu_driver::sink() {
   } else {
     cout << "Simulation failed!" << endl;
     report << "FAIL" << endl;
+    radsim_design->ReportDesignFailure();
   }
   cout << "Total simulation cycles = " << (end_cycle - start_cycle) << endl;
   report << (end_cycle - start_cycle) << endl;
-- 
2.43.0

