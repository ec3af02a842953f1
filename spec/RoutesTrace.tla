---------------------------- MODULE RoutesTrace ----------------------------
(* Routes of the real routing functions, found by following them from router *)
(* to router and by watching flits under load, judged by Routes.             *)
EXTENDS Routes, Json, IOUtils, TLC
VARIABLES tid, l, cfg, tab, seen

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Conf(t) == [topo |-> t.cfg.topo, kind |-> t.cfg.kind, k |-> t.cfg.k, n |-> t.cfg.n, where |-> t.cfg.where,
            edges |-> {t.cfg.edges[i] : i \in 1..Len(t.cfg.edges)}, single |-> t.cfg.single]

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Conf(Traces[tid]) /\ tab = Table(Conf(Traces[tid])) /\ seen = {}

(* all routes seen from node s to node d *)
TRoutes ==
  /\ l <= Len(Traces[tid].ev) /\ Ev.e = "R"
  /\ (\A i \in 1..Len(Ev.r) : Route(cfg, tab, Ev.s, Ev.d, Ev.r[i])) = TRUE
  /\ cfg.single => Len(Ev.r) = 1
  /\ seen' = seen \cup {Ev.s}
  /\ l' = l + 1 /\ UNCHANGED <<tid, cfg, tab>>
(* every pair was seen *)
TEnd == /\ l <= Len(Traces[tid].ev) /\ Ev.e = "end" /\ Ev.pairs = Len(cfg.where) * Len(cfg.where)
        /\ Len(Traces[tid].ev) = Ev.pairs + 1
        /\ Cardinality(seen) = Len(cfg.where)
        /\ l' = l + 1 /\ UNCHANGED <<tid, cfg, tab, seen>>
TDone == l = Len(Traces[tid].ev) + 1 /\ Traces[tid].ev[l - 1].e = "end" /\ UNCHANGED <<tid, l, cfg, tab, seen>>
TraceNext == TRoutes \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, cfg, tab, seen>>
=============================================================================
