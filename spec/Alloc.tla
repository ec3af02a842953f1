------------------------------- MODULE Alloc -------------------------------
(* Arbiters and allocators.                                                   *)
(* An arbiter gives one grant per arbitration, to a requester of the highest  *)
(* priority present, and lets others pass one that keeps requesting at that   *)
(* priority a bounded number of times only.                                   *)
(* An allocator answers a set of requested pairs <<input, output>> with a     *)
(* matching.  `unit` gives:                                                   *)
(*   n (arbiter: inputs) bound (grants to others)                             *)
(*   ins, outs           sizes of an allocator                                *)
(*   kind                "any", "maximal": no request could be added,         *)
(*                       "maximum": as many grants as possible                *)
(*   patience            allocations with the same requests after which every *)
(*                       request has been granted (0: no promise)             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES unit, wait, last, since
(* wait   arbiter input -> grants given to others while it was among the favoured
   last   requests of the previous allocation
   since  request -> allocations of the same requests since it was granted *)
allocVars == <<unit, wait, last, since>>

AllocInit(u) == /\ unit = u /\ wait = [i \in 0..(u.n - 1) |-> 0] /\ last = {} /\ since = <<>>

(* ---- arbiters: rq is a set of <<input, id, priority>> ---- *)
Top(rq) == CHOOSE p \in {r[3] : r \in rq} : \A q \in {r[3] : r \in rq} : q <= p
Favoured(rq) == {r \in rq : r[3] = Top(rq)}

Grant(rq, win, counts) ==
  /\ IF rq = {} THEN win[1] = -1 ELSE win \in Favoured(rq)
  /\ IF rq = {} \/ ~counts THEN UNCHANGED wait
     ELSE wait' = [i \in DOMAIN wait |-> IF \E r \in Favoured(rq) : r[1] = i /\ i # win[1] THEN wait[i] + 1 ELSE 0]
  /\ \A i \in DOMAIN wait' : wait'[i] <= unit.bound
  /\ UNCHANGED <<unit, last, since>>

(* ---- allocators ---- *)
(* m: set of <<input, output>> *)
IsMatching(m) == \A a, b \in m : (a[1] = b[1]) = (a[2] = b[2])
Alone(rq) == {r \in rq : \A q \in rq : (q[1] = r[1] \/ q[2] = r[2]) => q = r}
Maximal(rq, m) == \A r \in rq : \E g \in m : g[1] = r[1] \/ g[2] = r[2]

(* size of the largest matching *)
RECURSIVE Largest(_, _)
Largest(rq, ins) ==
  IF ins = {} \/ rq = {} THEN 0
  ELSE LET i == CHOOSE i \in ins : TRUE
           mine == {r \in rq : r[1] = i}
           rest == {r \in rq : r[1] # i}
           sizes == {Largest(rest, ins \ {i})} \cup {1 + Largest({q \in rest : q[2] # r[2]}, ins \ {i}) : r \in mine}
       IN CHOOSE x \in sizes : \A y \in sizes : y <= x

Legal(rq, m) ==
  /\ m \subseteq rq
  /\ IsMatching(m)
  /\ Alone(rq) \subseteq m
  /\ unit.kind \in {"maximal", "maximum"} => Maximal(rq, m)
  /\ unit.kind = "maximum" => Cardinality(m) = Largest(rq, 0..(unit.ins - 1))

Allocate(rq, m) ==
  /\ Legal(rq, m) = TRUE      \* a value: its quantifiers are not choices
  /\ last' = rq
  /\ since' = [r \in rq |-> IF r \in m THEN 0 ELSE IF last = rq THEN since[r] + 1 ELSE 1]
  /\ unit.patience # 0 => \A r \in rq : since'[r] <= unit.patience
  /\ UNCHANGED <<unit, wait>>
=============================================================================
