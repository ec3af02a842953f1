------------------------------ MODULE RoutesMC ------------------------------
(* A packet wandering by the rules of Routes, from every router to every     *)
(* other, on every small grid and torus and on graphs: it never gets stuck,  *)
(* always gets closer and visits exactly the routers of a shortest route.    *)
EXTENDS Routes, TLC
CONSTANTS KMax, Kinds
VARIABLES cfg, tab, src, dst, cur, prv, hops, cost

Grids == {[topo |-> t, kind |-> kd, k |-> k, n |-> k * k, where |-> [i \in 1..(k * k) |-> i - 1], edges |-> {}, single |-> FALSE] :
          t \in {"grid", "torus"}, kd \in Kinds, k \in 2..KMax}
(* graphs: a ring with a chord, one-way latencies, a star *)
Both(es) == es \cup {<<e[2], e[1], e[3]>> : e \in es}
EdgeSets == {Both({<<0,1,1>>, <<1,2,1>>, <<2,3,1>>, <<3,4,1>>, <<4,0,1>>, <<0,2,1>>}),
             {<<0,1,3>>, <<1,0,1>>, <<1,2,1>>, <<2,1,2>>, <<2,0,1>>, <<0,2,5>>, <<2,3,1>>, <<3,2,4>>, <<3,4,1>>, <<4,3,1>>},
             Both({<<0,1,1>>, <<0,2,2>>, <<0,3,1>>, <<0,4,3>>})}
Graphs == {[topo |-> "graph", kind |-> "minimal", k |-> 1, n |-> 5, where |-> [i \in 1..5 |-> i - 1], edges |-> es, single |-> FALSE] : es \in EdgeSets}

Init == /\ cfg \in Grids \cup Graphs
        /\ tab = Table(cfg)
        /\ src \in 0..(cfg.n - 1) /\ dst \in 0..(cfg.n - 1)
        /\ cur = src /\ prv = -1 /\ hops = 1 /\ cost = 0
Hop == \E b \in 0..(cfg.n - 1) : /\ Step(cfg, tab, prv, cur, b, dst)
                                 /\ cur' = b /\ prv' = cur /\ hops' = hops + 1 /\ cost' = cost + Cost(cfg, cur, b)
                                 /\ UNCHANGED <<cfg, tab, src, dst>>
Arrived == cur = dst /\ UNCHANGED <<cfg, tab, src, dst, cur, prv, hops, cost>>
Next == Hop \/ Arrived      \* a deadlock is a packet that cannot go on
Spec == Init /\ [][Next]_<<cfg, tab, src, dst, cur, prv, hops, cost>>
Shortest == cost + Dist(cfg, tab, cur, dst) = Dist(cfg, tab, src, dst)
HopsRight == cfg.topo # "graph" => hops = 1 + GridDist(cfg, src, dst) - GridDist(cfg, cur, dst)
(* x-first routes on a mesh are unique *)
Unique == (cfg.kind = "dor" /\ cfg.topo = "grid") =>
            Cardinality({b \in 0..(cfg.n - 1) : Step(cfg, tab, prv, cur, b, dst)}) <= 1
=============================================================================
