----------------------------- MODULE ClusterTrace -----------------------------
(* Several recorded runs of one cluster, judged by Cluster.                     *)
EXTENDS Cluster, Json, IOUtils, TLC
VARIABLES tid, l, s, ref, pos, k
Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Fresh(0, <<>>, 1) /\ ref = <<>> /\ pos = 1 /\ k = 0
Quiet == UNCHANGED <<ref, pos, k>>
TRun == More /\ Ev.e = "run" /\ (k = 0 \/ Complete(s)) = TRUE /\ EndSame(k <= 1, ref, pos) = TRUE /\ k' = k + 1 /\ s' = Fresh(Cfg.n, Cfg.want, Cfg.period) /\ pos' = 1 /\ UNCHANGED ref /\ Step
TMake == More /\ Ev.e = "design" /\ MakeOk(s, Ev.r, Ev.d) /\ s' = Make(s, Ev.r) /\ Quiet /\ Step
TDone == More /\ Ev.e = "done" /\ DoneOk(s, Ev.r, Ev.t) /\ s' = Done(s, Ev.r, Ev.t) /\ Quiet /\ Step
TFail == More /\ Ev.e = "fail" /\ FailOk(s, Ev.r, Ev.t) /\ s' = Fail(s, Ev.r) /\ Quiet /\ Step
TEnd == More /\ Ev.e = "end" /\ EndOk(s, Ev.t) /\ s' = End(s, Ev.t) /\ Quiet /\ Step
TExit == More /\ Ev.e = "exit" /\ ExitOk(s, Ev.r, Ev.t) /\ s' = Exit(s, Ev.r) /\ Quiet /\ Step
(* everything seen in a cycle, or in a file *)
TSee == /\ More /\ Ev.e = "see" /\ SameOk(k = 1, ref, pos, <<Ev.t, Ev.d>>) = TRUE
        /\ ref' = (IF k = 1 THEN Append(ref, <<Ev.t, Ev.d>>) ELSE ref) /\ pos' = pos + 1 /\ UNCHANGED <<s, k>> /\ Step
TLast == /\ More /\ Ev.e = "over" /\ (Complete(s) /\ EndSame(k = 1, ref, pos)) = TRUE /\ UNCHANGED <<s, ref, pos, k>> /\ Step
TStop == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<tid, l, s, ref, pos, k>>
TraceSpec == TraceInit /\ [][TRun \/ TMake \/ TDone \/ TFail \/ TEnd \/ TExit \/ TSee \/ TLast \/ TStop]_<<tid, l, s, ref, pos, k>>
================================================================================
