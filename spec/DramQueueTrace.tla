--------------------------- MODULE DramQueueTrace ----------------------------
(* Requests, completions and commands of a real channel judged by DramQueue.   *)
EXTENDS DramQueue, Json, IOUtils, TLC
VARIABLES tid, l, s
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tid].cfg
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Fresh(D.units)
Next2 == l' = l + 1 /\ UNCHANGED tid
TQ == More /\ Ev.e = "Q" /\ s' = Accept(s, Ev.a, Ev.w, Ev.t) /\ Room(s', D.cap) /\ Next2
TD == More /\ Ev.e = "D" /\ CanDone(s, Ev.a, Ev.w, Ev.t) /\ s' = Done(s, Ev.a, Ev.w, Ev.t) /\ Next2
TR == More /\ Ev.e = "RD" /\ CanRead(s, Ev.a) /\ s' = Read(s, Ev.a, Ev.t, D.lat) /\ Next2
TW == More /\ Ev.e = "WR" /\ CanWrite(s, Ev.a) /\ s' = Write(s, Ev.a) /\ Next2
TF == More /\ Ev.e = "REF" /\ CanRefresh(s, Ev.u, Ev.t, D.per, D.sref) /\ s' = Refresh(s, Ev.u, Ev.t) /\ Next2
TE == More /\ Ev.e = "end" /\ AtEnd(s, Ev.t, Ev.u, D.per, D.sref) /\ UNCHANGED s /\ Next2
TDone == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<tid, l, s>>
TraceSpec == TraceInit /\ [][TQ \/ TD \/ TR \/ TW \/ TF \/ TE \/ TDone]_<<tid, l, s>>
=============================================================================
