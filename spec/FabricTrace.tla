---------------------------- MODULE FabricTrace ----------------------------
(* Trace validation of runs of the BookSim network against Fabric.           *)
EXTENDS Fabric, Json, IOUtils, TLC
VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ FabInit(Traces[tid].cfg)
IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInject == IsEvent("S") /\ Inject(Ev.f, Ev.l, Ev.v)
TMove == IsEvent("L") /\ Move(Ev.f, Ev.l, Ev.v)
TCredit == IsEvent("K") /\ Credit(Ev.l, Ev.v)
(* `same` : the flit's head/tail marks, payload, addresses and class are those it was injected with *)
TReceive == IsEvent("R") /\ Ev.same /\ Receive(Ev.f, Ev.n, Ev.v, Ev.h)
TEnd == IsEvent("end") /\ Ev.fin = 1 /\ Ev.used = 0 /\ Ev.occ = 0 /\ Ev.una = 0 /\ AllOut /\ NoCreditMissing /\ UNCHANGED fabVars
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<fabVars, tid, l>>

TraceNext == TInject \/ TMove \/ TCredit \/ TReceive \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<fabVars, tid, l>>
=============================================================================
