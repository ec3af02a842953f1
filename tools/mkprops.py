#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/mkprops.py regenerates it)."""
import json, os
N = "rad-sim/sim/noc/"
B = "rad-sim/sim/noc/booksim/"
S = "rad-sim/sim/"
D = "rad-sim/sim/dram/DRAMsim3/src/"
def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mechanism],
                             observe_at=list(observe), hook_needed=hook))
props = [
P("C01", "Streaming messages cross the NoC exactly once, in order and intact",
  "Every streaming beat that a module hands to a NoC-attached port (valid and ready in the same cycle of its clock) is later presented exactly once at the port named by its destination and interface, with the data, user and last fields it was sent with, and nothing is presented that was not sent. Where every message type has its own virtual channel, beats of one sender to one receiving port arrive in the order in which they were accepted. Once the receivers keep accepting, every accepted beat is delivered.",
  ["configurations", "schedules", "inputs"],
  "all placements, message sizes against NoC widths (single- and multi-flit), clock-period combinations of module, adapter and NoC, virtual-channel counts, buffer sizes, numbers of ports sharing a node, and stall patterns on both sides, where sender and receiver ports have the same width and the adapter FIFOs hold a virtual channel buffer and a whole packet",
  "the example designs run one placement, one clock set and nearly stall-free receivers, and only look at a final sum or result file",
  [N+"axis_slave_adapter.cpp", N+"axis_master_adapter.cpp", N+"radsim_noc.cpp", N+"sc_flit.cpp", N+"noc_utils.cpp", B+"routers/iq_router.cpp", B+"buffer_state.cpp"],
  [("packetization, flit injection under downstream credit", N+"axis_slave_adapter.cpp"),
   ("flit ejection, per-VC reassembly, credit return, output buffering", N+"axis_master_adapter.cpp")],
  [("injection FIFO", "flits of one packet, head first", N+"axis_slave_adapter.hpp"),
   ("ejection FIFOs", "one per virtual channel", N+"axis_master_adapter.hpp")],
  ["AXI-S signals at module ports, sampled at the module clock edge"]),
P("C02", "Streaming ports obey the valid/ready contract under every stall pattern",
  "A beat that the NoC presents to a module stays presented, with all of its fields unchanged, until the module is ready, and is then withdrawn or replaced exactly when it was taken. A beat that a module offers while the NoC is not ready has no effect, and one that is offered while it is ready is taken exactly once. While receivers stall, the NoC stops accepting once its finite buffers are full instead of dropping or buffering without bound.",
  ["schedules", "configurations"],
  "all sequences of valid at the senders and ready at the receivers, for every number of ports per node and every adapter buffer depth",
  "receivers of the example designs are almost always ready, so back-pressure reaches neither the adapters nor the senders",
  [N+"axis_slave_adapter.cpp", N+"axis_master_adapter.cpp"],
  [("ready generation from FIFO occupancy", N+"axis_slave_adapter.cpp (InputReady)"),
   ("valid held until ready", N+"axis_master_adapter.cpp (OutputInterface)")],
  [], ["tvalid/tready/tdata/tuser/tlast at module ports"]),
P("C03", "Memory-mapped requests and responses cross the NoC exactly once, unchanged",
  "Every read-address, write-address and write-data beat a requester hands to the NoC reaches the responder selected by its address (write data: that of the write address they belong to) exactly once, with address, length, size, burst type, data, last, identifier and user fields unchanged, and every read-data or write-response beat handed back reaches the requester named by its user field exactly once with data, response, last, identifier and user unchanged. Write data are taken from a requester only after their write address, and beats of one kind between the same pair of ports arrive in the order in which they were accepted. Once the receivers keep accepting, every accepted beat is delivered.",
  ["configurations", "schedules", "inputs"],
  "all address and control field values, burst lengths, placements with several requesters and responders (one memory-mapped port per node), module clock periods of at least two adapter periods (an integer multiple, as the adapters require), and stall patterns, for requesters that offer a write address only after the last data beat of the previous burst",
  "no built or tested example uses memory-mapped ports over the NoC, so this path is never executed",
  [N+"aximm_master_adapter.cpp", N+"aximm_slave_adapter.cpp", N+"noc_utils.cpp", S+"design_context.cpp"],
  [("request/response packetization", N+"aximm_slave_adapter.cpp, "+N+"aximm_master_adapter.cpp"),
   ("destination selection from the address", S+"design_context.cpp (DetermineBaseAddress)")],
  [], ["AXI-MM signals at module ports"]),
P("C04", "The NoC fabric never loses, duplicates, reorders, corrupts or wedges flits",
  "Every flit injected into the fabric under its credit protocol leaves it exactly once, at the node it is addressed to, on a virtual channel of its own class, carrying its own payload, and flits of one packet leave contiguously on their virtual channel from head to tail in order. No virtual channel ever holds more flits than its configured buffer and credits returned equal flits drained. As long as every node keeps draining, all packets of any finite traffic leave the fabric and leave it empty, with every credit returned, whatever the traffic pattern; with the default allocators and single-cycle allocation a packet is overtaken by a bounded number of others only, however long the traffic goes on.",
  ["configurations", "schedules", "inputs"],
  "all supported topologies and their deadlock-free routing functions, numbers of virtual channels, buffer depths, allocator kinds, pipeline delays, packet lengths, traffic patterns and ejection stall patterns",
  "the examples load a mesh far below saturation with one routing function and one allocator",
  [B+"routers/iq_router.cpp", B+"buffer_state.cpp", B+"vc.cpp", B+"buffer.cpp", B+"networks/network.cpp", B+"networks/kncube.cpp", B+"channel.hpp", B+"routefunc.cpp"],
  [("VC allocation, switch allocation, credit counting", B+"routers/iq_router.cpp"), ("downstream occupancy tracking", B+"buffer_state.cpp")],
  [("credits", "free slots of the downstream buffer per VC", B+"buffer_state.hpp")],
  ["flits and credits at network injection/ejection channels"]),
P("C05", "Packets follow shortest routes and visit exactly the expected routers",
  "With dimension-order routing on a mesh, concentrated mesh (without express channels) or torus every flit goes along the first dimension to its destination's position and then along the second, and so visits exactly as many routers as a minimal route between its source and destination nodes has, including both ends, whatever the load. The other minimal routing functions (xy_yx, romm, min_adapt, planar_adapt and adaptive_xy_yx) also keep to minimal routes. On a user-described irregular topology a flit follows a route of least total link latency. With dimension-order routing (but for ties between equal distances on a torus of even size) and on irregular topologies, the route depends only on source and destination.",
  ["configurations", "inputs"],
  "all pairs of nodes of every mesh/torus/concentrated-mesh size and every connected irregular topology",
  "tests check no hop counts and use a single mesh size per design",
  [B+"routefunc.cpp", B+"networks/kncube.cpp", B+"networks/cmesh.cpp", B+"networks/anynet.cpp"],
  [("dimension-order next hop", B+"routefunc.cpp"), ("shortest-path table construction", B+"networks/anynet.cpp")],
  [], ["hop count of ejected flits", "hop count in transaction telemetry"]),
P("C06", "Arbiters and allocators grant legal matchings and starve nobody",
  "An allocator's grants always form a matching: each input is granted at most one output and each output at most one input, only pairs that were requested are granted, and a lone or non-conflicting request is granted. An arbiter grants exactly one of the inputs that request at the highest priority present, and an input that keeps requesting at that priority is granted within a bounded number of grants to others. While equally urgent requests stay the same, iSLIP, select, separable and wavefront allocators grant each of them within a bounded number of allocations. Wavefront matchings leave no request that could be added; max_size matchings are as large as any.",
  ["inputs", "histories", "configurations"],
  "all request matrices, priorities and request histories, for every supported allocator and arbiter kind and size",
  "tests never exercise allocators other than one, nor check any grant",
  [B+"allocators/islip.cpp", B+"allocators/separable.cpp", B+"allocators/wavefront.cpp", B+"allocators/loa.cpp", B+"allocators/pim.cpp", B+"allocators/maxsize.cpp", B+"allocators/selalloc.cpp", B+"arbiters/roundrobin_arb.cpp", B+"arbiters/matrix_arb.cpp", B+"arbiters/tree_arb.cpp", B+"arbiters/prio_arb.cpp"],
  [("grant/accept iterations", B+"allocators"), ("rotating or least-recently-granted priority", B+"arbiters")],
  [("grant pointers", "next input/output to favour", B+"allocators/islip.hpp")], ["public allocator/arbiter interface"]),
P("C07", "Transaction telemetry is complete, ordered and agrees with what happened",
  "In a run with one device, every transaction accepted from a module has exactly one record in the statistics output, naming its NoC, its source and destination nodes and its width. Of its timestamps, acceptance comes first, packetization of its last flit and injection of its first flit follow it, then ejection of its last flit, depacketization and hand-over, with each stage taking no less than its flits need; the first and the last coincide with acceptance from the sender and hand-over to the receiver, and the latency is their difference. Stages not reached carry no time. The traffic reported per flow is the sum of the widths of its transactions divided by the simulated time, the hop count is that of the route, the aggregate bandwidth weighs each pair's traffic with the links of its route, and user probes record the simulation cycles at which they fired.",
  ["histories", "configurations"],
  "all traffic histories, clock combinations and numbers of NoCs",
  "no test reads the statistics files",
  [S+"radsim_telemetry.cpp", N+"axis_slave_adapter.cpp", N+"axis_master_adapter.cpp"],
  [("per-transaction record keyed by a global id", S+"radsim_telemetry.cpp")],
  [], ["stats CSV", "traffic-flow XML", "simulation log"]),
P("C08", "The inter-device link keeps order, latency, bandwidth and addressing",
  "Beats sent from one device to another arrive at the addressed device and node exactly once, unchanged and in order per device pair, never before and, on an idle link, exactly after the configured latency. Each device's sending side accepts beats only in the configured share of cycles. A beat is lost only when the finite link buffer is full, and every loss is counted and reported.",
  ["configurations", "schedules", "histories"],
  "all latencies, bandwidth fractions, buffer sizes, numbers of devices and traffic histories",
  "one two-device design with one latency and no overflow is run end to end and only its final result is checked",
  [S+"radsim_inter_rad.cpp", S+"portal.cpp", S+"radsim_cluster.cpp", N+"axis_slave_adapter.cpp"],
  [("per-destination FIFO with per-beat age counters", S+"radsim_inter_rad.cpp"), ("portal buffering", S+"portal.cpp")],
  [("link FIFO", "beats in flight to one device", S+"radsim_inter_rad.hpp")], ["AXI-S signals at the link's ports"]),
P("C09", "The memory controller behaves as a memory with one response per request",
  "Seen through its ports every memory location behaves as a register: a read returns the data of the last write acknowledged before the read was issued or of a write concurrent with the read, and the initial contents otherwise. Every accepted read burst yields exactly its number of data beats, in address and request order, with its own user tag and with last on the final beat only, and every accepted write burst yields exactly one acknowledgement with its own tag, after its last beat. This holds whatever the order in which the DRAM completes requests and however long responses are stalled.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of bursts, stalls of responses, channels, DRAM device types and queue sizes",
  "the examples that use memory only read preloaded contents with single-beat requests and do not stall",
  [S+"dram/mem_controller.cpp"],
  [("reordering of out-of-order DRAM completions", S+"dram/mem_controller.cpp (MemReadCallback)"), ("burst expansion", S+"dram/mem_controller.cpp (Tick)")],
  [("outstanding requests", "in request order, awaiting DRAM completion", S+"dram/mem_controller.hpp")], ["AXI-MM signals of the memory channels"]),
P("C10", "Every DRAM command is legal for the bank state and timing of the device",
  "In the sequence of commands sent to a DRAM channel, activates hit only closed banks, column accesses only the open row, and refreshes only closed banks, and every pair of commands respects the minimum separations that the device description gives for same-bank, same-group, same-rank and cross-rank commands, including the four-activate window. Precharges come only after the row's minimum open time and the read/write recovery times.",
  ["configurations", "schedules", "inputs"],
  "all supplied device descriptions, page policies, queue structures and request streams",
  "the DRAM model has one test, of one protocol variant, and no command is ever checked",
  [D+"timing.cc", D+"channel_state.cc", D+"bankstate.cc", D+"command_queue.cc", D+"controller.cc"],
  [("earliest-issue times per bank and command", D+"bankstate.cc"), ("timing tables", D+"timing.cc")],
  [], ["command trace (compiled in with the existing CMD_TRACE switch)"]),
P("C11", "Every accepted DRAM request completes exactly once and refresh never lapses",
  "Every read or write that the DRAM model accepts is reported complete exactly once with its own address, never earlier than the device's minimum latency for a read that had to access the array, and after finitely many cycles whenever finitely many other requests compete. Reads to an address complete without overtaking an earlier pending write to it. Each rank (or bank, under per-bank refresh) keeps being refreshed at the device's refresh interval under any load.",
  ["schedules", "inputs", "configurations"],
  "all request streams, device descriptions, queue sizes and page/refresh policies",
  "the only DRAM test exercises one protocol variant with one stream",
  [D+"controller.cc", D+"command_queue.cc", D+"dram_system.cc", D+"refresh.cc", D+"memory_system.cc"],
  [("pending/return queues", D+"controller.cc"), ("refresh interval counter", D+"refresh.cc")],
  [], ["completion callbacks", "command trace"]),
P("C12", "Memory addresses map one-to-one onto DRAM locations",
  "Within its capacity every word address of a memory channel is translated to a distinct location of that same channel, every location of the channel is reached, and the DRAM model decodes each location back to in-range rank, bank group, bank, row and column. The beats of a burst are consecutive words.",
  ["inputs", "configurations"],
  "all addresses of all supplied device descriptions and address-mapping orders",
  "tests touch a few hundred addresses of two devices and would not notice two addresses sharing a location",
  [S+"dram/mem_controller.cpp", D+"configuration.cc"],
  [("field-wise address rearrangement", S+"dram/mem_controller.cpp (AddressMapping)"), ("mask/shift decode", D+"configuration.cc")],
  [], ["public mapping functions"]),
P("C13", "Names in placement and clock files resolve to the right node, port and clock",
  "A design's placement file puts every named port or module on exactly the node and NoC it names, messages sent to a port's published destination and interface identifiers reach that port and no other, and memory base addresses select exactly the node of their port. Every module runs at the clock its clock file gives it, and so do the adapters of its nodes; every NoC runs at its own.",
  ["configurations", "inputs"],
  "all valid placements (port- or module-level, several ports per node, several NoCs) and clock assignments",
  "each example has a single fixed placement",
  [S+"design_context.cpp", S+"radsim_config.cpp", S+"radsim_module.cpp"],
  [("placement parsing and per-node interface numbering", S+"design_context.cpp")],
  [], ["published destination/interface/base-address lookups", "observed clock edges at modules"]),
P("C14", "Configuration generation is faithful to the user's description",
  "Every parameter a user sets reaches the generated simulator settings of exactly the devices it was set for, unset ones keep their documented default, and derived widths (identifiers, destinations, virtual channels, latency and bandwidth in cycles) are large enough and consistent with the parameters they derive from. Unknown parameters and inconsistent device counts are rejected.",
  ["configurations", "inputs"],
  "all parameter assignments, section orders and assignments of named configurations to devices",
  "each example uses one fixed description and the suite only checks that the simulator builds from it",
  ["rad-sim/config.py", S+"radsim_config.cpp"],
  [("YAML section dispatch", "rad-sim/config.py (parse_config_file)"), ("knob file parsing", S+"radsim_config.cpp")],
  [], ["generated header, settings and NoC configuration files"]),
P("C15", "RTL port maps and wrappers preserve every port of the module",
  "For every Verilog module with recognisable ports the generated port map lists each port exactly once with its direction, width and interface role, and the generated wrapper connects every mapped port to the signal of the same name, direction and width, in both directions. Incomplete or inconsistent port maps are rejected rather than producing a wrong wrapper.",
  ["inputs", "programs"],
  "all port lists: orders, styles, widths, numbers and kinds of interfaces",
  "the unit tests cover a handful of fixed ports",
  ["rad-sim/scripts/generate_port_mappings.py", "rad-sim/scripts/generate_wrapper.py", "rad-sim/scripts/verilog_parser.py"],
  [("port classification", "rad-sim/scripts/generate_port_mappings.py"), ("wrapper emission", "rad-sim/scripts/generate_wrapper.py")],
  [], ["port.map", "generated wrapper sources"]),
P("C16", "Example accelerators compute the right result for every input",
  "The adder and multiplier examples return the sum or product of all values sent to them, for any number (at least one) and value of inputs whose result fits the 128-bit response, and signal completion exactly once, after the last input. The matrix-vector engines of the multi-layer perceptron example run their programs faithfully and return the exact matrix-vector products, each exactly once, in the order of the inputs and after them, for every weight and input vector (results within 32 bits) and every blocking of the matrices over engines; the supplied test-case compiler produces such blockings.",
  ["inputs", "configurations", "schedules"],
  "all input streams, lengths, pacing of inputs and outputs, placements and engine clocks, with one virtual channel per message type and no more inputs waiting than the queues hold",
  "each test runs one fixed input set",
  ["rad-sim/example-designs/add", "rad-sim/example-designs/mult", "rad-sim/example-designs/mlp"],
  [("accumulation until last", "rad-sim/example-designs/add/modules/adder.cpp"), ("instruction issue, dot products, partial sums", "rad-sim/example-designs/mlp/modules/mvm.cpp"), ("blocking", "rad-sim/example-designs/mlp/compiler/gen_testcase.py")],
  [], ["AXI-S signals at module ports"]),
P("C17", "A multi-device run ends exactly when all devices are done and reports failure",
  "A simulation keeps running until every device has reported that it is done and then ends promptly; a failure reported by a design makes the process exit with a nonzero status and success makes it exit with zero. The outcome and the cycle-by-cycle behaviour are the same on every run and do not depend on the logging and tracing settings.",
  ["histories", "configurations"],
  "all completion orders, numbers of devices, failure reports and logging settings",
  "the tests run one history each and never a failing one",
  [S+"radsim_cluster.cpp", S+"design_context.cpp", "rad-sim/config.py", S+"radsim_telemetry.cpp"],
  [("done flags and exit code", S+"design_context.cpp"), ("main loop", "rad-sim/config.py (generate_radsim_main)")],
  [], ["process exit status, simulated end time"]),
P("C18", "The recommendation example multiplies exactly the embedding vectors asked for",
  "For every set of embedding tables, lookups, gather program and weights, the DLRM example (on one device and split over two) reads each asked-for vector from its memory channel once, puts the vectors of an input together as the gather program says (waiting for every vector an instruction takes), and returns the exact product of the layers with it: every result exactly once, in the order of the inputs and after its input. The supplied compiler lays tables, programs and weights out so that the vectors of an input are concatenated in order.",
  ["inputs", "configurations", "schedules"],
  "all tables, lookups, channels, addresses, gather programs, blockings, placements, engine clocks and pacings of inputs and outputs; results within 16 bits, engines of a layer on one clock, no channel asked by one input for more than its queues hold",
  "the tests run one fixed model and compare one success string",
  ["rad-sim/example-designs/dlrm", "rad-sim/example-designs/dlrm_two_rad"],
  [("requests", "rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp"), ("gather program", "rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp"), ("engines", "rad-sim/example-designs/dlrm/modules/mvm.cpp"), ("layout", "rad-sim/example-designs/dlrm/compiler/dlrm.py")],
  [], ["lookup and result ports of the design, memory contents"]),
P("C19", "The examples' own test benches accept right results and reject wrong ones",
  "The test bench of every example hands each input of its stimulus files (programs, weights and vectors included) to the design exactly once and in order whatever the pace of the design, takes exactly as many results as are expected, and reports success - message and exit status - exactly if every element of every result, on every device, is the expected one.",
  ["inputs", "schedules"],
  "all stimulus and expected results, all wrong answers (any element of any result, any device), all patterns of readiness and pauses of the design; results as long as the expected ones",
  "the tests only see designs that answer right",
  ["rad-sim/example-designs"],
  [("vectors", "rad-sim/example-designs/mlp/mlp_driver.cpp"), ("element comparison", "rad-sim/example-designs/dlrm/dlrm_driver.cpp"), ("loading", "rad-sim/example-designs/mlp_int8/mlp_driver.cpp"), ("scalar", "rad-sim/example-designs/mult/mult_driver.cpp"), ("threads", "rad-sim/example-designs/npu/npu_driver.cpp")],
  [], ["ports of the test bench, messages, exit status"]),
P("C20", "Engines loaded over the NoC compute with exactly what was loaded",
  "In the 8-bit perceptron example, every weight row and instruction the loaders are given arrives in the addressed memory row or at the end of the addressed engine's program, exactly once and in order, whatever the loading order, placement and pacing; each engine then runs its program over and over, and every result leaves exactly once, in order and after the inputs it needs, and is the exact sum of products (32-bit sums cut to 8 bits) of what was loaded and fed. Programs of the supplied compiler compute the layers' product.",
  ["inputs", "configurations", "schedules"],
  "all programs, memories, loading orders, reloads, placements and pacings; everything loaded before the first input, at most 60 instructions to an engine, no more vectors waiting for an engine than its queues hold, SystemC engines",
  "the tests run one compiled model and compare one success string",
  ["rad-sim/example-designs/mlp_int8"],
  [("engine", "rad-sim/example-designs/mlp_int8/modules/sysc_mvm.cpp"), ("loaders", "rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp"), ("instructions on the wire", "rad-sim/example-designs/mlp_int8/modules/instructions.cpp"), ("compiler", "rad-sim/example-designs/mlp_int8/compiler")],
  [], ["loading, input and result ports of the design"]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(props))
