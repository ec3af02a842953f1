----------------------------- MODULE BenchTrace ------------------------------
(* Runs of the examples' own test benches over a design that answers as told, *)
(* judged by Bench.                                                           *)
EXTENDS Bench, Json, IOUtils, TLC
VARIABLES tid, l, fed, got, ok, nums
Traces == JsonDeserialize(IOEnv.TRACES)
Devs == Traces[tid].cfg.devs
Ev == Traces[tid].ev[l]
vars == <<tid, l, fed, got, ok, nums>>
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
Zero == [x \in {} |-> 0]
At(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Put(f, c) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN At(f, c) + 1 ELSE f[x]]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ fed = [d \in DOMAIN Traces[tid].cfg.devs |-> Zero] /\ got = fed
             /\ ok = [d \in DOMAIN Traces[tid].cfg.devs |-> TRUE] /\ nums = <<>>
Scalar == Devs[1].kind \in {"add", "mult"}
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET c == CHOOSE c \in s : TRUE IN f[c] + Sum(f, s \ {c})
Last(f) == At(f, "last") = 1
TIn == /\ More /\ Ev.e = "in"
       /\ IF Scalar
          THEN /\ Ev.v[1] >= 0 /\ ~Last(fed[1])
               /\ nums' = Append(nums, Ev.v[1])
               /\ fed' = (IF Ev.v[2] = 1 THEN <<Put(fed[1], "last")>> ELSE fed)
          ELSE LET q == Devs[Ev.d].in
                   k == At(fed[Ev.d], Ev.c)
               IN /\ (Ev.c \in DOMAIN q /\ k < Len(q[Ev.c]) /\ q[Ev.c][k + 1] = Ev.v) = TRUE
                  /\ fed' = [fed EXCEPT ![Ev.d] = Put(@, Ev.c)] /\ UNCHANGED nums
       /\ UNCHANGED <<got, ok>> /\ Step
Right == IF Scalar THEN Ev.v = Limbs(Result(Devs[1].kind, nums), 8)
         ELSE At(got[Ev.d], Ev.c) < Len(Devs[Ev.d].gold) /\ Ev.v = Devs[Ev.d].gold[At(got[Ev.d], Ev.c) + 1]
TOut == /\ More /\ Ev.e = "out"
        /\ ok' = [ok EXCEPT ![Ev.d] = (@ /\ Right) = TRUE]
        /\ got' = [got EXCEPT ![Ev.d] = Put(@, Ev.c)] /\ UNCHANGED <<fed, nums>> /\ Step
TEnd == /\ More /\ Ev.e = "end"
        /\ (Scalar => Last(fed[1])) = TRUE
        /\ (\A d \in DOMAIN Devs : Cardinality(DOMAIN got[d]) = (IF Devs[d].kind = "npu" THEN 4 ELSE 1)) = TRUE
        /\ (~Scalar => \A d \in DOMAIN Devs : \A c \in DOMAIN got[d] : got[d][c] = Len(Devs[d].gold)) = TRUE
        /\ (~Scalar => \A d \in DOMAIN Devs : Sum(fed[d], DOMAIN fed[d]) >= Devs[d].need) = TRUE
        /\ (Verdict(ok, Ev.rc, Ev.good, Ev.bad)) = TRUE
        /\ UNCHANGED <<fed, got, ok, nums>> /\ Step
TStop == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TIn \/ TOut \/ TEnd \/ TStop]_vars
==============================================================================
