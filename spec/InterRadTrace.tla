---------------------------- MODULE InterRadTrace ----------------------------
(* Recorded edges of the real link judged by InterRad.                         *)
EXTENDS InterRad, Json, IOUtils, TLC
VARIABLES tid, l, buf, win, losses
Traces == JsonDeserialize(IOEnv.TRACES)
C == Traces[tid].cfg
Ev == Traces[tid].ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ buf = Empty(C) /\ win = Empty(C) /\ losses = 0
TEdge ==
  /\ l <= Len(Traces[tid].ev) /\ Ev.e = "C"
  /\ (\A i \in 1..Len(Ev.a) : Ev.r[Ev.a[i].s + 1] = 1) = TRUE
  /\ buf' \in Edge(C, buf, l, Ev.a, Ev.o, Ev.lost)
  (* the first edges come before the pattern *)
  /\ win' = (IF l < 3 THEN win ELSE [d \in 1..C.n |-> Push(C, win[d], Ev.r[d])])
  /\ (\A d \in 1..C.n : Share(C, win'[d])) = TRUE
  /\ losses' = losses + Ev.lost
  /\ l' = l + 1 /\ UNCHANGED tid
TEnd ==
  /\ l <= Len(Traces[tid].ev) /\ Ev.e = "end" /\ Ev.unsent = 0
  /\ buf = Empty(C) /\ Ev.count = losses /\ (losses > 0 => Ev.last = losses)
  /\ l' = l + 1 /\ UNCHANGED <<tid, buf, win, losses>>
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<tid, l, buf, win, losses>>
TraceSpec == TraceInit /\ [][TEdge \/ TEnd \/ TDone]_<<tid, l, buf, win, losses>>
=============================================================================
