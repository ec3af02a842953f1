----------------------------- MODULE AllocTrace -----------------------------
(* Recorded grants of the real arbiters and allocators against Alloc.        *)
EXTENDS Alloc, Json, IOUtils, TLC
VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Rq == {Ev.req[i] : i \in 1..Len(Ev.req)}

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ AllocInit(Traces[tid].cfg)
IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TGrant == IsEvent("G") /\ Grant(Rq, <<Ev.win, Ev.id, Ev.pri>>, Ev.upd)
(* what the inputs and the outputs are told agrees *)
TMatch == /\ IsEvent("M")
          /\ Len(Ev.in) = unit.ins /\ Len(Ev.out) = unit.outs
          /\ LET m == {<<i - 1, Ev.in[i]>> : i \in {i \in 1..Len(Ev.in) : Ev.in[i] # -1}}
             IN /\ m = {<<Ev.out[o], o - 1>> : o \in {o \in 1..Len(Ev.out) : Ev.out[o] # -1}}
                /\ Allocate(Rq, m)
TEnd == IsEvent("end") /\ UNCHANGED allocVars
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<allocVars, tid, l>>
TraceNext == TGrant \/ TMatch \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<allocVars, tid, l>>
=============================================================================
