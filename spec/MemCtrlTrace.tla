---------------------------- MODULE MemCtrlTrace -----------------------------
(* The beats of one channel of the real controller judged by MemCtrl.          *)
EXTENDS MemCtrl, Json, IOUtils, TLC
VARIABLES tid, l, s
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Fresh(Traces[tid].cfg.init)
TAW == More /\ Ev.e = "AW" /\ s' = WriteAddress(s, Ev.a) /\ Step
TW == More /\ Ev.e = "W" /\ s' = WriteData(s, Ev.v, Ev.u) /\ Step
TAR == More /\ Ev.e = "AR" /\ s' = ReadAddress(s, Ev.a, Ev.u) /\ Step
TB == More /\ Ev.e = "B" /\ CanAck(s, Ev.u) /\ s' = Ack(s) /\ Step
TR == More /\ Ev.e = "R" /\ CanReturn(s, Ev.v, Ev.u, Ev.l = 1) /\ s' = Return(s) /\ Step
TE == More /\ Ev.e = "end" /\ Ev.l = 0 /\ Idle(s) /\ UNCHANGED s /\ Step
TDone == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<tid, l, s>>
TraceSpec == TraceInit /\ [][TAW \/ TW \/ TAR \/ TB \/ TR \/ TE \/ TDone]_<<tid, l, s>>
=============================================================================
