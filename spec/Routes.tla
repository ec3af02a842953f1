------------------------------- MODULE Routes -------------------------------
(* Which way packets go.  `cfg` describes the network and its routing rule:   *)
(*   topo   "grid" (mesh or concentrated mesh), "torus" or "graph"            *)
(*   kind   "dor": along the first dimension, then along the second           *)
(*          "minimal": any shortest route     "any": any route that arrives   *)
(*   k      routers per dimension;  n: routers                                *)
(*   where  node (from 1) -> router                                           *)
(*   edges  the links of a graph, <<from, to, latency>>                       *)
(*   single one route per pair of nodes, whatever else happens                *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Inf == 1000000

(* distance along one dimension *)
Along(c, a, b) == IF c.topo = "torus" THEN Min(Abs(a - b), c.k - Abs(a - b)) ELSE Abs(a - b)
X(c, r) == r % c.k
Y(c, r) == r \div c.k
GridDist(c, a, b) == Along(c, X(c, a), X(c, b)) + Along(c, Y(c, a), Y(c, b))

(* least latency from every router to d: relaxed until nothing changes *)
RECURSIVE Relax(_, _, _)
Relax(c, f, n) ==
  LET better(r) == LET s == {f[e[2]] + e[3] : e \in {e \in c.edges : e[1] = r}} \cup {f[r]}
                   IN CHOOSE x \in s : \A y \in s : x <= y
      g == [r \in 0..(c.n - 1) |-> better(r)]
  IN IF n = 0 \/ g = f THEN f ELSE Relax(c, g, n - 1)
Table(c) == IF c.topo = "graph" THEN [d \in 0..(c.n - 1) |-> Relax(c, [r \in 0..(c.n - 1) |-> IF r = d THEN 0 ELSE Inf], c.n)]
            ELSE [d \in {} |-> 0]

Dist(c, tab, a, b) == IF c.topo = "graph" THEN tab[b][a] ELSE GridDist(c, a, b)

Linked(c, a, b) == CASE c.topo = "graph" -> \E e \in c.edges : e[1] = a /\ e[2] = b
                     [] c.topo = "grid" -> Abs(X(c, a) - X(c, b)) + Abs(Y(c, a) - Y(c, b)) = 1
                     [] OTHER -> GridDist(c, a, b) = 1
Cost(c, a, b) == IF c.topo = "graph" THEN (CHOOSE e \in c.edges : e[1] = a /\ e[2] = b)[3] ELSE 1

(* direction of a step on a grid or torus of more than 2 routers: +1 or -1 along its dimension *)
Sign(c, a, b) == IF (b - a + c.k) % c.k = 1 THEN 1 ELSE -1
SameDim(c, a, b, z) == (Y(c, a) = Y(c, b)) = (Y(c, b) = Y(c, z))
Turn(c, p, a, b) ==   \* p, a, b consecutive: no way back in the same dimension
  (p # -1 /\ c.k > 2 /\ SameDim(c, p, a, b)) =>
    IF Y(c, a) = Y(c, b) THEN Sign(c, X(c, p), X(c, a)) = Sign(c, X(c, a), X(c, b)) ELSE Sign(c, Y(c, p), Y(c, a)) = Sign(c, Y(c, a), Y(c, b))

(* may a packet for router d that came from router p go from a to b? *)
Step(c, tab, p, a, b, d) ==
  /\ c.kind # "any" => a # d
  /\ CASE c.kind = "any" -> TRUE
       [] c.kind = "minimal" -> Linked(c, a, b) /\ Dist(c, tab, a, d) = Cost(c, a, b) + Dist(c, tab, b, d)
       [] OTHER -> /\ Linked(c, a, b)
                   /\ GridDist(c, b, d) = GridDist(c, a, d) - 1
                   /\ (X(c, a) # X(c, d)) = (X(c, a) # X(c, b))
                   /\ Turn(c, p, a, b)

(* a route, listed router by router, from node s to node t *)
Route(c, tab, s, t, r) ==
  /\ Len(r) >= 1
  /\ r[1] = c.where[s + 1]
  /\ r[Len(r)] = c.where[t + 1]
  /\ \A i \in 1..(Len(r) - 1) : Step(c, tab, IF i = 1 THEN -1 ELSE r[i - 1], r[i], r[i + 1], c.where[t + 1])
=============================================================================
