--------------------------- MODULE TelemetryTrace ---------------------------
EXTENDS Telemetry, Json, IOUtils, TLC
VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
Set(s) == {s[i] : i \in 1..Len(s)}
Pair3(x) == <<x[1], x[2], x[3]>>

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ TeleInit({<<Cfg.flows[i][1], Cfg.flows[i][2]>> : i \in 1..Len(Cfg.flows)}, DOMAIN Cfg.recs, {<<x[1], x[2], x[3]>> : x \in Set(Cfg.pairs)})

IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TAccept == IsEvent("A") /\ <<Ev.p, Ev.d>> \in DOMAIN open /\ Ev.key \in DOMAIN pos /\ Accepted(<<Ev.p, Ev.d>>, Ev.m, Ev, Cfg.recs[Ev.key])
TTake == IsEvent("T") /\ HandedOver(Ev.p, Ev.m, Ev.t, Cfg.ordered)
FlowBits == {[members |-> {Pair3(y) : y \in Set(x.members)}, bits |-> x.bits] : x \in Set(Ev.traffic)}
Links(p) == LET x == CHOOSE x \in Set(Ev.links) : <<x.noc, x.src, x.dst>> = p IN x.hops
TEnd ==
  /\ IsEvent("end")
  /\ Ended([s \in DOMAIN pos |-> Len(Cfg.recs[s])], FlowBits, Ev.agg, Links, Ev.now)
  /\ Ev.probes = Ev.want      \* user trace probes: the cycles at which they fired
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<teleVars, tid, l>>

TraceNext == TAccept \/ TTake \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<teleVars, tid, l>>
=============================================================================
