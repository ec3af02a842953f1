----------------------------- MODULE AxisTrace -----------------------------
(* Trace validation of recorded runs of RAD-Sim against AxisNoc.            *)
EXTENDS AxisNoc, Json, IOUtils, TLC
VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
Flow(s, d) == <<s, d>>

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ AxisInit({<<Cfg.flows[i][1], Cfg.flows[i][2]>> : i \in 1..Len(Cfg.flows)},
              {Cfg.recv[i] : i \in 1..Len(Cfg.recv)})

IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TAccept == IsEvent("A") /\ Flow(Ev.p, Ev.d) \in DOMAIN chan /\ Accept(Flow(Ev.p, Ev.d), Ev.m, Cfg.cap)
TPresent == IsEvent("P") /\ Ev.p \in DOMAIN pres /\ Present(Ev.p, Ev.m, Cfg.ordered)
TTake == IsEvent("T") /\ Take(Ev.p)
(* the port shows nothing: fine unless a beat was withdrawn untaken *)
TIdle == IsEvent("N") /\ Ev.p \in DOMAIN pres /\ pres[Ev.p] = <<>> /\ UNCHANGED axisVars
(* the run ended by itself: everything offered was accepted and delivered *)
TEnd == IsEvent("end") /\ Ev.u = 0 /\ Drained /\ UNCHANGED axisVars
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<axisVars, tid, l>>

TraceNext == TAccept \/ TPresent \/ TTake \/ TIdle \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<axisVars, tid, l>>
=============================================================================
