----------------------------- MODULE AddrMapTrace -----------------------------
(* Answers of the real controller and of the DRAM model judged by AddrMap.     *)
EXTENDS AddrMap, Json, IOUtils, TLC
VARIABLES tid, l, seen
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Dims == Traces[tid].cfg.dims
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ seen = {}
TMap == /\ More /\ Ev.e = "map"
        /\ (MapOk(seen, Dims, Ev.ch, Ev.w, Ev.chan, Ev.dch, Ev.loc)) = TRUE
        /\ seen' = seen \cup {<<Ev.w, Ev.loc>>} /\ Step
(* another channel has words of its own *)
TNext == More /\ Ev.e = "channel" /\ seen' = {} /\ Step
(* every word of the channel was asked for: words reached, all in range *)
TAll == /\ More /\ Ev.e = "all" /\ Ev.w = Words(Dims) /\ Ev.loc = <<Words(Dims), 0, 0>> /\ UNCHANGED seen /\ Step
TDone == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<tid, l, seen>>
TraceSpec == TraceInit /\ [][TMap \/ TNext \/ TAll \/ TDone]_<<tid, l, seen>>
=============================================================================
