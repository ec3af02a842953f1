---------------------------- MODULE LoadedTrace ----------------------------
(* Recorded runs of loaded engines, judged by Loaded.  The first event is the  *)
(* loading of everything; each loader keeps the order of what it is given.     *)
EXTENDS Loaded, Json, IOUtils, TLC
VARIABLES tid, l, net, box, got, outs
Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
vars == <<tid, l, net, box, got, outs>>
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ box = <<>> /\ outs = 0 /\ net = <<>>
             /\ got = (IF Cfg.kind = "product" THEN [d \in 1..Cfg.first |-> <<>>] ELSE <<>>)
---------------------------------------------------------------------------
Program == Cfg.kind = "program"
RowsIn(e, ws) == FoldLeft(LAMBDA a, w : LoadRow(a, Cfg.nd, w[2], w[3] + 1, w[4]), e, ws)
InstsIn(e, is) == FoldLeft(LAMBDA a, i : LoadInst(a, i[2]), e, is)
TLoad == /\ More /\ Ev.e = "loaded" /\ net = <<>>
         /\ net' = (IF Program THEN [d \in 1..Cfg.engines |-> InstsIn(RowsIn(Eng0, SelectSeq(Cfg.rows, LAMBDA w : w[1] = d)), SelectSeq(Cfg.insts, LAMBDA i : i[1] = d))]
                    ELSE <<Eng0>>)
         /\ UNCHANGED <<box, got, outs>> /\ Step
Ready == {d \in DOMAIN net : CanRun(net[d])}
TRun == /\ More /\ Program /\ Ready # {}
        /\ LET d == CHOOSE d \in Ready : \A x \in Ready : d <= x
               s == After(net, d, Cfg.bits)
           IN net' = s[1] /\ box' = box \o s[2]
        /\ UNCHANGED <<tid, l, got, outs>>
TPush == More /\ Program /\ net # <<>> /\ Ready = {} /\ Ev.e = "in" /\ net' = Give(net, Ev.d, Ev.v) /\ UNCHANGED <<box, got, outs>> /\ Step
TPop == /\ More /\ Program /\ Ready = {} /\ Ev.e = "out" /\ box # <<>> /\ (Head(box) = Ev.v) = TRUE
        /\ box' = Tail(box) /\ UNCHANGED <<net, got, outs>> /\ Step
TDry == More /\ Program /\ Ready = {} /\ Ev.e = "end" /\ box = <<>> /\ UNCHANGED <<net, box, got, outs>> /\ Step
---------------------------------------------------------------------------
(* what the compiled programs are for: input c goes to engine ((c-1) mod first) + 1 *)
Whole8 == Cfg.kind = "product"
Nth(c) == ((c - 1) \div Cfg.first) + 1
Own(c) == ((c - 1) % Cfg.first) + 1
Share == Cfg.cols \div Cfg.first
Whole(t) == \A c \in 1..Cfg.cols : Len(got[Own(c)]) >= ((t - 1) * Share) + Nth(c)
Input(t) == FlattenSeq([c \in 1..Cfg.cols |-> got[Own(c)][((t - 1) * Share) + Nth(c)]])
TGet == /\ More /\ Whole8 /\ net # <<>> /\ Ev.e = "in" /\ got' = [got EXCEPT ![Ev.d] = Append(@, Ev.v)] /\ UNCHANGED <<net, box, outs>> /\ Step
TGive == /\ More /\ Whole8 /\ Ev.e = "out" /\ outs < Cfg.n * Cfg.blocks
         /\ LET t == (outs \div Cfg.blocks) + 1
                b == (outs % Cfg.blocks) + 1
            IN /\ Whole(t)
               /\ box' = (IF b = 1 THEN ChainCut(Cfg.ws, Input(t), Cfg.bits) ELSE box)
               /\ (Part(box', Cfg.nd, b) = Ev.v) = TRUE
         /\ outs' = outs + 1 /\ UNCHANGED <<net, got>> /\ Step
TOver == More /\ Whole8 /\ Ev.e = "end" /\ outs = Cfg.n * Cfg.blocks /\ UNCHANGED <<net, box, got, outs>> /\ Step
TStop == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TLoad \/ TRun \/ TPush \/ TPop \/ TDry \/ TGet \/ TGive \/ TOver \/ TStop]_vars
==============================================================================
