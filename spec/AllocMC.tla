------------------------------ MODULE AllocMC ------------------------------
(* Design models of the arbiters and of two allocators: every grant they give *)
(* is one Alloc allows.                                                        *)
(*   "rr"      rotating pointer      "matrix"  least recently granted first    *)
(*   "fixed"   lowest input first (starves: the control)                       *)
(*   "islip"   grant and accept pointers, moved on acceptance                  *)
(*   "islip_eager"  the same but moving the grant pointer on every grant: the  *)
(*             classic mistake; with it a request can wait for ever            *)
(*   "wave"    wavefront with a rotating diagonal                              *)
EXTENDS Alloc, TLC
CONSTANTS Kind, N, M, Pris, Bound
VARIABLES ptr, apt, older, res     \* pointers; matrix of priorities; the grants of the last step

Arb == Kind \in {"rr", "matrix", "fixed"}
Cells == (0..(N - 1)) \X (0..(M - 1))
Unit == [n |-> N, bound |-> Bound, ins |-> N, outs |-> M, kind |-> IF Kind = "wave" THEN "maximal" ELSE "any", patience |-> Bound]
Init == /\ AllocInit(Unit)
        /\ ptr = [o \in 0..(M - 1) |-> 0] /\ apt = [i \in 0..(N - 1) |-> 0]
        /\ older = {<<i, j>> \in (0..(N - 1)) \X (0..(N - 1)) : i < j}
        /\ res = [rq |-> {}, got |-> {}, ok |-> TRUE]

(* the first of `set` at or after p, going round *)
From(set, p, k) == CHOOSE x \in set : \A y \in set : (x - p + k) % k <= (y - p + k) % k

Reqs == {{<<i, 0, f[i]>> : i \in {i \in DOMAIN f : f[i] # -1}} : f \in [0..(N - 1) -> {-1} \cup Pris]}
Winner(rq) ==
  LET f == {r[1] : r \in Favoured(rq)}
  IN CASE Kind = "rr" -> From(f, ptr[0], N)
       [] Kind = "matrix" -> CHOOSE i \in f : \A j \in f \ {i} : <<i, j>> \in older
       [] OTHER -> From(f, 0, N)
ArbStep == \E rq \in Reqs :
  /\ rq # {}
  /\ LET w == Winner(rq)
         win == CHOOSE r \in rq : r[1] = w
     IN /\ wait' = [i \in DOMAIN wait |-> IF \E r \in Favoured(rq) : r[1] = i /\ i # w THEN wait[i] + 1 ELSE 0]
        /\ ptr' = [ptr EXCEPT ![0] = IF Kind = "rr" THEN (w + 1) % N ELSE 0]
        /\ older' = IF Kind = "matrix" THEN (older \ {<<w, j>> : j \in 0..(N - 1)}) \cup {<<j, w>> : j \in (0..(N - 1)) \ {w}} ELSE older
        /\ res' = [rq |-> {}, got |-> {}, ok |-> win \in Favoured(rq)]
        /\ UNCHANGED <<unit, last, since, apt>>

Grants(rq) == [o \in 0..(M - 1) |-> LET f == {r[1] : r \in {r \in rq : r[2] = o}} IN IF f = {} THEN -1 ELSE From(f, ptr[o], N)]
Islip(rq) == LET g == Grants(rq)
             IN {<<i, From({o \in DOMAIN g : g[o] = i}, apt[i], M)>> : i \in {i \in 0..(N - 1) : \E o \in DOMAIN g : g[o] = i}}
RECURSIVE Wave(_, _, _)
Sq == IF N > M THEN N ELSE M
Wave(rq, m, d) == IF d = Sq THEN m
                  ELSE LET diag == {r \in rq : (r[1] + r[2]) % Sq = (ptr[0] + d) % Sq /\ \A g \in m : g[1] # r[1] /\ g[2] # r[2]}
                       IN Wave(rq, m \cup diag, d + 1)
(* the requests may stay or change *)
AllStep == \E rq \in SUBSET Cells :
  /\ LET m == IF Kind = "wave" THEN Wave(rq, {}, 0) ELSE Islip(rq)
         g == Grants(rq)
     IN /\ since' = [r \in rq |-> IF r \in m THEN 0 ELSE IF last = rq THEN since[r] + 1 ELSE 1]
        /\ last' = rq
        /\ res' = [rq |-> rq, got |-> m, ok |-> TRUE]
        /\ ptr' = IF Kind = "wave" THEN (IF rq = {} THEN ptr ELSE [ptr EXCEPT ![0] = (@ + 1) % Sq])
                  ELSE [o \in DOMAIN ptr |-> IF Kind = "islip_eager" THEN (IF g[o] = -1 THEN ptr[o] ELSE (g[o] + 1) % N)
                                             ELSE IF \E x \in m : x[2] = o THEN ((CHOOSE x \in m : x[2] = o)[1] + 1) % N ELSE ptr[o]]
        /\ apt' = IF Kind = "wave" THEN apt ELSE [i \in DOMAIN apt |-> IF \E x \in m : x[1] = i THEN ((CHOOSE x \in m : x[1] = i)[2] + 1) % M ELSE apt[i]]
        /\ UNCHANGED <<unit, wait, older>>
Next == IF Arb THEN ArbStep ELSE AllStep
Spec == Init /\ [][Next]_<<allocVars, ptr, apt, older, res>>
GrantsLegal == res.ok /\ Legal(res.rq, res.got)
NoStarvation == /\ \A i \in DOMAIN wait : wait[i] <= Bound
                /\ \A r \in DOMAIN since : since[r] <= Bound
=============================================================================
