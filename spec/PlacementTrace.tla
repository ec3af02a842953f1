--------------------------- MODULE PlacementTrace ---------------------------
(* Lines of the files, published identifiers, messages, statistics and clock *)
(* edges of real runs, judged by Placement.                                  *)
EXTENDS Placement, Json, IOUtils, TLC
VARIABLES tid, l
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Fn(s, k(_)) == [n \in {s[i].n : i \in 1..Len(s)} |-> k(CHOOSE x \in {s[i] : i \in 1..Len(s)} : x.n = n)]
Role(x) == x.role
Kin(x) == x.kind
Mod(x) == x.mod
Conf(c) == [role |-> Fn(c.ports, Role), kind |-> Fn(c.ports, Kin), mod |-> Fn(c.ports, Mod), pers |-> c.pers, aper |-> c.aper, nper |-> c.nper, w |-> c.w]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Conf(Traces[tid].cfg) /\ Init
Is(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
TraceNext ==
  \/ Is("port") /\ PortLine(Ev.n, Ev.noc, Ev.node, Ev.kind)
  \/ Is("module") /\ ModuleLine(Ev.n, Ev.noc, Ev.node, Ev.kind)
  \/ Is("clkline") /\ ClockLine(Ev.n, Ev.ai, Ev.ci)
  \/ Is("pub") /\ Publish(Ev.n, Ev.noc, Ev.node, Ev.itf, Ev.base)
  \/ Is("A") /\ Send(Ev.n, Ev.d, Ev.m)
  \/ Is("T") /\ Take(Ev.n, Ev.m)
  \/ Is("rows") /\ Crossed(Ev.rows)
  \/ Is("stamps") /\ Clocked(Ev.rows)
  \/ Is("clk") /\ Ticks(Ev.n, Ev.edges, Ev.span)
  \/ Is("end") /\ Finished /\ UNCHANGED vars
  \/ l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<vars, tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
