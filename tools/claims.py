TR = "TLA+ specification checked with TLC; "
CLAIMS = {
 "C01": (TR + "recorded runs of the simulator validated against spec/AxisNoc.tla (trace validation), path model spec/AxisPath.tla shown to refine it",
         "design level: exhaustive for small instances; code level: random and directed scenarios through real config.py, SystemC design and BookSim"),
 "C02": (TR + "recorded stalling runs validated against spec/AxisNoc.tla (present/hold/take, bounded acceptance); spec/AxisPath.tla refines it",
         "design level: exhaustive for small instances; code level: random stall patterns"),
 "C03": (TR + "recorded memory-mapped runs validated against spec/AximmNoc.tla; spec/AximmPath.tla refines it and is deadlock free",
         "design level: exhaustive for small instances; code level: random scenarios"),
 "C04": (TR + "flit, credit and ejection events of the real BookSim network validated against spec/Fabric.tla; spec/FabricMC.tla explores the fabric with routing rules",
         "design level: exhaustive for 2x2 mesh, line and ring (and a deadlocking ring as control); code level: random networks, allocators, delays and traffic"),
 "C05": (TR + "routes of all pairs of nodes, followed through the real routing functions and wiring and observed under load, validated against spec/Routes.tla; spec/RoutesMC.tla explores the rules themselves",
         "all pairs of nodes of meshes, tori and concentrated meshes up to 8x8 and of random graphs; rules explored exhaustively up to 6x6 (thorough: 8x8)"),
 "C06": (TR + "grants of the real arbiters and allocators validated against spec/Alloc.tla; spec/AllocMC.tla holds design models of round robin, matrix, iSLIP and wavefront",
         "all request sets up to 3x3 in random order plus random ones up to 5x5, random priorities and withdrawals; design models exhaustive"),
 "C07": (TR + "statistics, flow and probe files of recorded runs joined with module-side events and validated against spec/Telemetry.tla",
         "random stream and memory-mapped scenarios, one and two NoCs, finished and interrupted runs; no separate design-level model"),
 "C13": (TR + "lines of random placement and clock files, published identifiers, deliveries, router crossings and clock edges of real runs validated against spec/Placement.tla; spec/PlacementMC.tla explores the resolution design",
         "resolution design exhaustive for three ports on up to three NoCs; code level: random files, one to three NoCs, port and module lines, shared nodes"),
 "C08": (TR + "every edge of the link, driven alone under random latency, share, slots and traffic, and whole multi-device designs validated against spec/InterRad.tla and spec/AxisTrace.tla; spec/InterRadMC.tla explores the link design",
         "link design exhaustive for small latency, share and slots; code level: random link configurations of 2-4 devices edge by edge, random multi-device designs end to end"),
 "C10": (TR + "the command traces of the DRAM model, for devices derived from the supplied descriptions under random policies and request streams, validated against spec/DramTiming.tla; spec/DramTimingMC.tla checks a table-based controller against it",
         "design: every command sequence of small devices up to a bounded number of cycles; code level: hundreds of derived devices and request streams, every command judged"),
 "C11": (TR + "acceptances, completions and commands of the DRAM model validated against spec/DramQueue.tla; spec/DramQueueMC.tla explores a draining, reordering controller incl. liveness",
         "design: every order of a few requests to a few addresses, with liveness; code level: random devices, policies, queue sizes and request streams, each run to completion"),
"C09": (TR + "every beat at the ports of the memory controller validated against spec/MemCtrl.tla, a register per word; spec/MemCtrlMC.tla explores the controller's queues over a memory that answers reads in any order, with liveness",
        "design: every interleaving of a few bursts to a few words; code level: random devices, queue sizes, policies, bursts, overlapping reads and writes, stalled responses, initial contents"),
"C12": (TR + "answers of the controller's and the DRAM model's own mapping functions, and bursts run against single-word accesses, validated against spec/AddrMap.tla and MemCtrl.tla; spec/AddrMapMC.tla explores every field order",
        "design: all 720 field orders with every combination of field widths up to 1 (thorough 2) and every word; code level: every word of small devices under random field orders, and for every supplied device address bits, their pairs, linear clash candidates and random words"),
"C14": (TR + "settings read back from the files the real generator wrote, through the simulator's own parser, validated against spec/Config.tla; spec/ConfigMC.tla explores a generator that reads the sections of every small description in every order",
        "design: every description of three parameters for two configurations, every order; code level: hundreds of random descriptions of whole clusters, one in four with one of twelve kinds of mistake"),
"C15": (TR + "port maps the real scripts write for random Verilog modules, their verdicts on maps, and compiled, bound and inspected wrappers validated against spec/PortMap.tla; spec/PortMapMC.tla explores every small module, map, edit of the map and wrapper",
        "design: every module of one plain port and two interfaces (thorough: two plain ports), every order of lines, every single edit; code level: hundreds of random modules in many Verilog styles and maps with fourteen kinds of mistake, some wrappers built and bound"),
"C17": (TR + "runs of clusters whose designs finish and fail on a schedule, at every log and trace setting, validated against spec/Cluster.tla; spec/ClusterMC.tla explores the loop that drives a simulation",
        "design: every schedule of up to three devices over a few clock periods; code level: random schedules of 1-4 devices through the real main(), each repeated with other settings and other memory contents"),
"C16": (TR + "runs of the real adder, multiplier and perceptron examples with test benches of our own validated against spec/Accel.tla (arithmetic of any size, engines at instruction level, matrix products); spec/AccelMC.tla explores every interleaving of blocked engines",
        "design: every blocking of small matrices over up to two (thorough: three) engines per layer in every interleaving; code level: random value lists up to 128-bit results, random matrices, blockings and engine programs, and the output of the example's own compiler"),
"C18": (TR + "runs of the real one- and two-device recommendation examples with a test bench of our own validated against spec/Dlrm.tla (channel queues, gather program, layers); spec/DlrmMC.tla explores every interleaving of requests, replies, gathering and engines",
        "design: small tables and gather programs in every interleaving; code level: random tables, lookups, gather programs, weights, blockings, placements and clocks, and the output of the example's own compiler"),
"C19": (TR + "runs of the real test benches of seven examples over a stand-in design that answers right or wrong as told validated against spec/Bench.tla (stimulus in order, results, verdict); spec/BenchMC.tla explores every interleaving of a test bench and a design and refutes nine wrong ways to judge",
        "design: small numbers of inputs and results in every interleaving; code level: random stimulus, expected results, ready patterns and one wrong element, vector or order at a time in each example's own test bench"),
"C20": (TR + "runs of the real 8-bit perceptron example, loaded over the NoC by its own loaders and fed by a test bench of our own, validated against spec/Loaded.tla (loading, looping programs, cut sums); spec/LoadedMC.tla explores every interleaving of two loaders, three engines and inputs and refutes six wrong ways",
        "design: two lists to three engines in every interleaving, with and without reloading; code level: random programs, memories, loading orders, placements and pacings, and the output of the example's own compiler"),
}
NOT = {}
HOOKS = {"guard": "none", "enable": "no hooks: harnesses in /verif compile /repo's sources with their own modules, drivers and build files", "source_commits": []}
NOTES = "python3 tools/mkmanifest.py writes this file. Checks build from /repo's working tree in scratch directories under /tmp."
