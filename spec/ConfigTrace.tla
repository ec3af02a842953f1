------------------------------ MODULE ConfigTrace ------------------------------
(* A description fed to the real generator and the settings read back from the  *)
(* files it wrote, judged by Config.                                            *)
EXTENDS Config, Json, IOUtils, TLC
VARIABLES tid, l, user, unknown, names
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
Same == UNCHANGED <<user, unknown, names>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ user = [x \in {} |-> 0] /\ unknown = FALSE /\ names = {}
X == [v |-> Ev.v, n |-> Ev.n]
TName == More /\ Ev.e = "config" /\ names' = names \cup {Ev.s} /\ UNCHANGED <<user, unknown>> /\ Step
TSet == /\ More /\ Ev.e = "set"
        /\ unknown' = (unknown \/ ~Known(Ev.s, Ev.p))
        /\ user' = [y \in DOMAIN user \cup {<<Ev.s, Ev.p>>} |-> IF y = <<Ev.s, Ev.p>> THEN X ELSE user[y]]
        /\ UNCHANGED names /\ Step
TStray == More /\ Ev.e = "stray" /\ unknown' = TRUE /\ UNCHANGED <<user, names>> /\ Step
TRun == More /\ Ev.e = "run" /\ ((Ev.n[1] = 1) = Acceptable(user, unknown, names)) = TRUE /\ Same /\ Step
TKnob == More /\ Ev.e = "knob" /\ (KnobOk(user, Ev.r, Ev.p, X)) = TRUE /\ Same /\ Step
TShared == More /\ Ev.e = "shared" /\ (IF Ev.p = "inter_rad_latency_cycles" THEN LatencyOk(user, Ev.n[1])
                                       ELSE IF Ev.p = "share" THEN ShareOk(user, Ev.n[1], Ev.n[2], Ev.n[3])
                                       ELSE IF Ev.p = "telemetry_num_traces" THEN Ev.n[1] = Len(OfCluster(user, "telemetry_traces").v)
                                       ELSE Ev.v = OfCluster(user, Ev.p).v) = TRUE /\ Same /\ Step
TNoc == More /\ Ev.e = "noc" /\ (BooksimOk(user, Ev.r, Ev.k, Ev.p, X)) = TRUE /\ Same /\ Step
TClasses == More /\ Ev.e = "classes" /\ (ClassesOk(user, Ev.r, Ev.k, Ev.n, Ev.m)) = TRUE /\ Same /\ Step
TWidth == More /\ Ev.e = "widths" /\ (\A p \in DOMAIN Ev.w : WidthOk(user, Ev.w, p)) = TRUE /\ Same /\ Step
TDone == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<tid, l, user, unknown, names>>
TraceSpec == TraceInit /\ [][TName \/ TSet \/ TStray \/ TRun \/ TKnob \/ TShared \/ TNoc \/ TClasses \/ TWidth \/ TDone]_<<tid, l, user, unknown, names>>
================================================================================
