----------------------------- MODULE AximmTrace -----------------------------
(* Trace validation of recorded memory-mapped runs against AximmNoc.        *)
EXTENDS AximmNoc, Json, IOUtils, TLC
VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
Flow(s, d) == <<s, d>>
Set(s) == {s[i] : i \in 1..Len(s)}

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ MmInit({<<Cfg.flows[i][1], Cfg.flows[i][2]>> : i \in 1..Len(Cfg.flows)}, Set(Cfg.recv), Set(Cfg.reqs))

IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TAccept ==
  /\ IsEvent("A")
  /\ Flow(Ev.p, Ev.d) \in DOMAIN chan
  /\ CASE Ev.k = "aw" -> AcceptAddress(Flow(Ev.p, Ev.d), Ev.m, Cfg.cap, Ev.q, Ev.t)
       [] Ev.k = "w" -> AcceptData(Flow(Ev.p, Ev.d), Ev.m, Cfg.cap, Ev.q, Ev.t, Ev.last)
       [] OTHER -> AcceptOther(Flow(Ev.p, Ev.d), Ev.m, Cfg.cap)
TPresent == IsEvent("P") /\ Ev.p \in DOMAIN pres /\ MmPresent(Ev.p, Ev.m)
TTake == IsEvent("T") /\ MmTake(Ev.p)
TIdle == IsEvent("N") /\ Ev.p \in DOMAIN pres /\ pres[Ev.p] = <<>> /\ UNCHANGED mmVars
TEnd == IsEvent("end") /\ Ev.u = 0 /\ Drained /\ (\A q \in DOMAIN awq : awq[q] = <<>>) /\ UNCHANGED mmVars
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<mmVars, tid, l>>

TraceNext == TAccept \/ TPresent \/ TTake \/ TIdle \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<mmVars, tid, l>>
=============================================================================
