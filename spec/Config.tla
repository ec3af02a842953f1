-------------------------------- MODULE Config --------------------------------
(* What a description of a cluster means.  `user' maps a scope - "all", the     *)
(* name of a configuration, or "cluster" - and a parameter to the value set     *)
(* there: v is the value as a sequence of strings, n as integers (reals in      *)
(* tenths).                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
S(x) == [v |-> <<x>>, n |-> <<0>>]
I(x, t) == [v |-> <<t>>, n |-> <<x>>]
(* documented defaults *)
Noc == [type |-> S("2d"), num_nocs |-> I(1, "1"), topology |-> S("mesh"), dim_x |-> I(8, "8"), dim_y |-> I(8, "8"), routing_func |-> S("dim_order"),
        vcs |-> I(3, "3"), vc_buffer_size |-> I(8, "8"), output_buffer_size |-> I(8, "8"), num_packet_types |-> I(3, "3"), router_uarch |-> S("iq"),
        vc_allocator |-> S("islip"), sw_allocator |-> S("islip"), credit_delay |-> I(1, "1"), routing_delay |-> I(1, "1"), vc_alloc_delay |-> I(1, "1"),
        sw_alloc_delay |-> I(1, "1"), anynet_file |-> S("?"), num_nodes |-> I(0, "0"), clk_period |-> I(5, "0.571"), payload_width |-> I(146, "146")]
Shared == [noc_packet_id_width |-> 32, noc_max_num_router_dest_interfaces |-> 32, interfaces_max_axis_tdata_width |-> 512, interfaces_axis_tkeep_width |-> 8,
           interfaces_axis_tstrb_width |-> 8, interfaces_axis_tuser_width |-> 75, interfaces_axi_id_width |-> 8, interfaces_axi_user_width |-> 64,
           interfaces_max_axi_data_width |-> 512]
Device == [noc_adapters_clk_period |-> I(12, "1.25"), noc_adapters_fifo_size |-> I(16, "16"), noc_adapters_obuff_size |-> I(2, "2"), noc_adapters_in_arbiter |-> S("fixed_rr"),
           noc_adapters_out_arbiter |-> S("priority_rr"), noc_adapters_vc_mapping |-> S("direct"), design_clk_periods |-> I(50, "5.0"), design_noc_placement |-> S("noc.place"),
           dram_num_controllers |-> I(0, "0"), dram_clk_periods |-> I(20, "2.0"), dram_queue_sizes |-> I(64, "64"), dram_config_files |-> S("HBM2_8Gb_x128"), design_name |-> S("?")]
Cluster == [sim_driver_period |-> I(50, "5.0"), telemetry_log_verbosity |-> I(0, "0"), telemetry_traces |-> [v |-> <<"trace0", "trace1">>, n |-> <<0, 0>>], num_rads |-> I(1, "1"),
            cluster_configs |-> [v |-> <<>>, n |-> <<>>], cluster_topology |-> S("all-to-all"), inter_rad_latency |-> I(50, "5.0"), inter_rad_bw |-> I(256, "25.6"),
            inter_rad_fifo_num_slots |-> I(1000, "1000")]
NocP == {"noc_" \o p : p \in DOMAIN Noc}
ByName == [x \in NocP |-> Noc[CHOOSE p \in DOMAIN Noc : "noc_" \o p = x]]
Known(scope, p) == IF scope = "cluster" THEN p \in DOMAIN Cluster
                   ELSE IF scope = "all" THEN p \in NocP \cup DOMAIN Shared \cup DOMAIN Device ELSE p \in NocP \cup DOMAIN Shared \cup DOMAIN Device
(* the value a device's configuration c has for p *)
Value(user, c, p) == IF <<c, p>> \in DOMAIN user THEN user[<<c, p>>]
                     ELSE IF <<"all", p>> \in DOMAIN user THEN user[<<"all", p>>]
                     ELSE IF p \in NocP THEN ByName[p] ELSE Device[p]
OfCluster(user, p) == IF <<"cluster", p>> \in DOMAIN user THEN user[<<"cluster", p>>] ELSE Cluster[p]
Rads(user) == OfCluster(user, "cluster_configs").v
Nocs(user, c) == Value(user, c, "noc_num_nocs").n[1]
Max(a, b) == IF a > b THEN a ELSE b
Dim(user, c, k) == Max(Value(user, c, "noc_dim_x").n[k], Value(user, c, "noc_dim_y").n[k])
Topo(user, c, k) == Value(user, c, "noc_topology").v[k]
Is3d(user, c, k) == Value(user, c, "noc_type").v[k] = "3d"
Grid(user, c, k) == Topo(user, c, k) \in {"mesh", "torus"}
Nodes(user, c, k) == IF Grid(user, c, k) THEN Dim(user, c, k) * Dim(user, c, k) * (IF Is3d(user, c, k) THEN 4 ELSE 1) ELSE Value(user, c, "noc_num_nodes").n[k]
NocOk(user, c, k) ==
  LET vc == Value(user, c, "noc_vcs").n[k]
      ty == Value(user, c, "noc_num_packet_types").n[k]
  IN /\ Topo(user, c, k) \in {"mesh", "torus", "anynet"}
     /\ Grid(user, c, k) => Value(user, c, "noc_type").v[k] \in {"2d", "3d"} /\ ~(Topo(user, c, k) = "torus" /\ Is3d(user, c, k))
     /\ ~Grid(user, c, k) => Nodes(user, c, k) > 0
     /\ vc % ty = 0 /\ ty <= 5
(* what must be accepted; everything else must be rejected *)
Acceptable(user, unknown, names) ==
  /\ ~unknown
  /\ Len(Rads(user)) = OfCluster(user, "num_rads").n[1]
  /\ \A r \in 1..Len(Rads(user)) : Rads(user)[r] \in names
  /\ \A r \in 1..Len(Rads(user)) : \A k \in 1..Nocs(user, Rads(user)[r]) : NocOk(user, Rads(user)[r], k)
(* settings of one device *)
KnobOk(user, r, p, x) == LET c == Rads(user)[r] IN
  IF p = "noc_num_nodes" THEN Len(x.n) >= Nocs(user, c) /\ \A k \in 1..Nocs(user, c) : x.n[k] = Nodes(user, c, k)
  ELSE x.v = Value(user, c, p).v
(* settings of NoC k of a device, by BookSim's names *)
NocParam == [routing_function |-> "noc_routing_func", num_vcs |-> "noc_vcs", vc_buf_size |-> "noc_vc_buffer_size", output_buffer_size |-> "noc_output_buffer_size", router |-> "noc_router_uarch",
             vc_allocator |-> "noc_vc_allocator", sw_allocator |-> "noc_sw_allocator", credit_delay |-> "noc_credit_delay", routing_delay |-> "noc_routing_delay",
             vc_alloc_delay |-> "noc_vc_alloc_delay", sw_alloc_delay |-> "noc_sw_alloc_delay", network_file |-> "noc_anynet_file"]
BooksimOk(user, r, k, p, x) == LET c == Rads(user)[r] IN
  CASE p = "topology" -> x.v[1] = (IF ~Grid(user, c, k) THEN "anynet" ELSE IF Is3d(user, c, k) THEN "cmesh" ELSE Topo(user, c, k))
    [] p = "k" -> x.n[1] = Dim(user, c, k)
    [] p = "n" -> x.n[1] = 2
    [] p = "c" -> x.n[1] = (IF Is3d(user, c, k) THEN 4 ELSE 1)
    [] OTHER -> x.v[1] = Value(user, c, NocParam[p]).v[k]
(* every packet type has virtual channels of its own, as many as the others, none is left over *)
ClassesOk(user, r, k, lo, hi) ==
  LET c == Rads(user)[r] ty == Value(user, c, "noc_num_packet_types").n[k] vc == Value(user, c, "noc_vcs").n[k]
  IN /\ Len(lo) = ty /\ Len(hi) = ty
     /\ \A t \in 1..ty : 0 <= lo[t] /\ hi[t] - lo[t] + 1 = vc \div ty /\ hi[t] < vc
     /\ \A t, u \in 1..ty : t # u => hi[t] < lo[u] \/ hi[u] < lo[t]
(* widths every device has to live with *)
Over(user, f(_, _), m) == \A r \in 1..Len(Rads(user)) : \A k \in 1..Nocs(user, Rads(user)[r]) : f(Rads(user)[r], k) <= m
Pow2(w) == 2 ^ w
SharedScopes(user, p) == {x \in DOMAIN user : x[2] = p}
SharedOk(user, p, w) == IF SharedScopes(user, p) = {} THEN w = Shared[p]
                        ELSE /\ \A x \in SharedScopes(user, p) : w >= user[x].n[1]
                             /\ Cardinality({user[x].n[1] : x \in SharedScopes(user, p)}) = 1 => \A x \in SharedScopes(user, p) : w = user[x].n[1]
HeaderParam == [NOC_LINKS_PACKETID_WIDTH |-> "noc_packet_id_width", AXIS_MAX_DATAW |-> "interfaces_max_axis_tdata_width", AXI4_MAX_DATAW |-> "interfaces_max_axi_data_width",
                AXIS_USERW |-> "interfaces_axis_tuser_width", AXI4_USERW |-> "interfaces_axi_user_width", AXIS_STRBW |-> "interfaces_axis_tstrb_width",
                AXIS_KEEPW |-> "interfaces_axis_tkeep_width", AXI4_IDW |-> "interfaces_axi_id_width"]
(* all: the values of every width, by name *)
WidthOk(user, all, p) == LET w == all[p] IN
  CASE p = "NOC_LINKS_PAYLOAD_WIDTH" -> Over(user, LAMBDA c, k : Value(user, c, "noc_payload_width").n[k], w)
    [] p = "NOC_LINKS_VCID_WIDTH" -> w >= 1 /\ Over(user, LAMBDA c, k : Value(user, c, "noc_vcs").n[k], Pow2(w))
    [] p = "NOC_LINKS_TYPEID_WIDTH" -> w >= 1 /\ Over(user, LAMBDA c, k : Value(user, c, "noc_num_packet_types").n[k], Pow2(w))
    [] p \in {"AXIS_DEST_FIELDW", "AXI4_NODE_ADDRW"} -> w >= 1 /\ Over(user, LAMBDA c, k : Nodes(user, c, k), Pow2(w)) /\ (p = "AXIS_DEST_FIELDW" => Len(Rads(user)) <= Pow2(w))
    [] p \in {"NOC_LINKS_DEST_WIDTH", "AXIS_DESTW"} -> w = 3 * all["AXIS_DEST_FIELDW"]
    [] p = "NOC_LINKS_DEST_INTERFACE_WIDTH" -> w >= 1 /\ \A x \in SharedScopes(user, "noc_max_num_router_dest_interfaces") : user[x].n[1] <= Pow2(w)
    [] p = "AXIS_PAYLOADW" -> w = all["AXIS_MAX_DATAW"] + all["AXIS_USERW"] + 1
    [] p = "AXI4_PAYLOADW" -> w = all["AXI4_MAX_DATAW"] + all["AXI4_RESPW"] + all["AXI4_USERW"] + 1
    [] p = "AXIS_TRANSACTION_WIDTH" -> w = all["AXIS_MAX_DATAW"] + all["AXIS_STRBW"] + all["AXIS_KEEPW"] + all["AXIS_IDW"] + all["AXIS_DESTW"] + all["AXIS_USERW"] + 1
    [] p = "NOC_LINKS_WIDTH" -> w = all["NOC_LINKS_PAYLOAD_WIDTH"] + all["NOC_LINKS_VCID_WIDTH"] + all["NOC_LINKS_PACKETID_WIDTH"] + all["NOC_LINKS_DEST_WIDTH"] + all["NOC_LINKS_DEST_INTERFACE_WIDTH"]
    [] p = "AXIS_IDW" -> w = all["NOC_LINKS_PACKETID_WIDTH"]
    [] p = "AXI4_CTRLW" -> w = all["AXI4_LENW"] + all["AXI4_SIZEW"] + all["AXI4_BURSTW"]
    [] p \in DOMAIN HeaderParam -> SharedOk(user, HeaderParam[p], w)
    [] OTHER -> w >= 1
(* latency in whole cycles: the least that lasts long enough *)
LatencyOk(user, cycles) == LET l == OfCluster(user, "inter_rad_latency").n[1] t == OfCluster(user, "sim_driver_period").n[1] IN cycles * t >= l /\ (cycles - 1) * t < l
(* bandwidth: accepted beats over total cycles is the share asked for, to three decimals, or one if it is more *)
Abs(x) == IF x < 0 THEN -x ELSE x
ShareOk(user, accept, total, dataw) ==
  LET num == OfCluster(user, "inter_rad_bw").n[1] * OfCluster(user, "sim_driver_period").n[1]
      den == 100 * dataw
  IN IF num >= den THEN accept = total /\ total >= 1
     ELSE accept >= 0 /\ accept <= total /\ total >= 1 /\ total <= 1000 /\ 2 * Abs(accept * den - num * total) <= ((total * den) \div 1000) + total
===============================================================================
