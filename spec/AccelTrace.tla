----------------------------- MODULE AccelTrace -----------------------------
(* Recorded runs of the example accelerators, judged by Accel.                *)
EXTENDS Accel, Json, IOUtils, TLC
VARIABLES tid, l, u, net, box, got, outs, y
Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
vars == <<tid, l, u, net, box, got, outs, y>>
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
Scalar == Cfg.kind \in {"add", "mult"}
TraceInit ==
  /\ tid \in 1..Len(Traces) /\ l = 1 /\ box = <<>> /\ outs = 0 /\ y = <<>>
  /\ u = Idle(Cfg.kind)
  /\ net = (IF Cfg.kind = "program" THEN Net0(Cfg.prog) ELSE <<>>)
  /\ got = (IF Cfg.kind = "product" THEN [d \in {Cfg.own[i] : i \in DOMAIN Cfg.own} |-> <<>>] ELSE <<>>)
---------------------------------------------------------------------------
(* adder and multiplier *)
TTake == /\ More /\ Scalar /\ Ev.e = "in" /\ TakeOk(u) /\ u.n < Len(Cfg.want) /\ Cfg.want[u.n + 1] = Ev.v
         /\ u' = Take(Cfg.kind, u, Ev.v, Ev.last = 1) /\ UNCHANGED <<net, box, got, outs, y>> /\ Step
TTell == /\ More /\ Scalar /\ Ev.e = "resp" /\ TellOk(u, Ev.v) /\ u' = Tell(u) /\ UNCHANGED <<net, box, got, outs, y>> /\ Step
TEnd == /\ More /\ Scalar /\ Ev.e = "end" /\ Answered(u, Cfg.want) /\ UNCHANGED <<u, net, box, got, outs, y>> /\ Step
---------------------------------------------------------------------------
(* products *)
Product == Cfg.kind = "product"
Blocks == Len(Cfg.own)
(* which of the parts an engine gets block b is for it *)
Nth(b) == Cardinality({c \in 1..b : Cfg.own[c] = Cfg.own[b]})
Share(b) == Cardinality({c \in 1..Blocks : Cfg.own[c] = Cfg.own[b]})
(* input t (from 1) *)
Whole(t) == \A b \in 1..Blocks : Len(got[Cfg.own[b]]) >= (t - 1) * Share(b) + Nth(b)
Input(t) == FlattenSeq([b \in 1..Blocks |-> got[Cfg.own[b]][(t - 1) * Share(b) + Nth(b)]])
TGet == /\ More /\ Product /\ Ev.e = "in" /\ Ev.d \in DOMAIN got
        /\ got' = [got EXCEPT ![Ev.d] = Append(@, Ev.v)] /\ UNCHANGED <<u, net, box, outs, y>> /\ Step
TGive == /\ More /\ Product /\ Ev.e = "out" /\ outs < Cfg.n * Cfg.rows
         /\ LET t == (outs \div Cfg.rows) + 1
                b == (outs % Cfg.rows) + 1
            IN /\ Whole(t)
               /\ y' = (IF b = 1 THEN Chain(Cfg.ws, Input(t)) ELSE y)
               /\ (Part(y', Cfg.nd, b) = Ev.v) = TRUE
         /\ outs' = outs + 1 /\ UNCHANGED <<u, net, box, got>> /\ Step
TOver == More /\ Product /\ Ev.e = "end" /\ outs = Cfg.n * Cfg.rows /\ UNCHANGED <<u, net, box, got, outs, y>> /\ Step
---------------------------------------------------------------------------
(* programs: the network runs as far as it can before anything else is looked at *)
Program == Cfg.kind = "program"
Ready == {p \in UNION {{<<a, b>> : b \in DOMAIN Cfg.prog[a]} : a \in DOMAIN Cfg.prog} : CanStep(net, Cfg.prog, p[1], p[2])}
TRun == /\ More /\ Program /\ Ready # {}
        /\ LET p == CHOOSE p \in Ready : \A q \in Ready : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
               s == Stepped(net, Cfg.prog, Cfg.mem, p[1], p[2])
           IN net' = s[1] /\ box' = box \o s[2]
        /\ UNCHANGED <<tid, l, u, got, outs, y>>
TPush == /\ More /\ Program /\ Ready = {} /\ Ev.e = "in" /\ net' = Feed(net, Ev.d, Ev.v) /\ UNCHANGED <<u, box, got, outs, y>> /\ Step
TPop == /\ More /\ Program /\ Ready = {} /\ Ev.e = "out" /\ box # <<>> /\ (Head(box) = Ev.v) = TRUE /\ box' = Tail(box) /\ outs' = outs + 1
        /\ UNCHANGED <<u, net, got, y>> /\ Step
TDry == More /\ Program /\ Ready = {} /\ Ev.e = "end" /\ box = <<>> /\ UNCHANGED <<u, net, box, got, outs, y>> /\ Step
TStop == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TTake \/ TTell \/ TEnd \/ TGet \/ TGive \/ TOver \/ TRun \/ TPush \/ TPop \/ TDry \/ TStop]_vars
==============================================================================
