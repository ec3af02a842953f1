--------------------------- MODULE DramTimingTrace ---------------------------
(* The command trace of a real channel judged by DramTiming.                   *)
EXTENDS DramTiming, Json, IOUtils, TLC
VARIABLES tid, l, s
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tid].cfg
Ev == Traces[tid].ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Start(D)
TCmd ==
  /\ l <= Len(Traces[tid].ev) /\ Ev.e = "C"
  /\ Legal(D, s, Ev.t, Ev.c, Ev.r, Ev.g, Ev.k, Ev.row) = TRUE
  /\ s' = After(D, s, Ev.t, Ev.c, Ev.r, Ev.g, Ev.k, Ev.row)
  /\ l' = l + 1 /\ UNCHANGED tid
TEnd == l <= Len(Traces[tid].ev) /\ Ev.e = "end" /\ l' = l + 1 /\ UNCHANGED <<tid, s>>
TDone == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<tid, l, s>>
TraceSpec == TraceInit /\ [][TCmd \/ TEnd \/ TDone]_<<tid, l, s>>
=============================================================================
