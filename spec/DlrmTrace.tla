------------------------------ MODULE DlrmTrace ------------------------------
(* Recorded runs of the recommendation-model examples, judged by Dlrm.  The   *)
(* queues are as full as they can be: all that was asked for has arrived.     *)
EXTENDS Dlrm, Json, IOUtils, TLC
VARIABLES tid, l, g, words, outs, y, ins
Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev[l]
vars == <<tid, l, g, words, outs, y, ins>>
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ g = Gather0(Cfg.nch) /\ words = <<>> /\ outs = 0 /\ y = <<>> /\ ins = 0
(* the vectors of an input, in the order they were asked for *)
RECURSIVE Asked(_, _)
Asked(h, as) == IF as = <<>> THEN h ELSE Asked(Arrive(h, as[1][1], Cfg.mem[as[1][1]][as[1][2]]), Tail(as))
TIn == /\ More /\ Ev.e = "in" /\ ins < Cfg.n
       /\ ("want" \in DOMAIN Cfg => Cfg.want[ins + 1] = Ev.a) = TRUE
       /\ LET r == Pass(Cfg.gather, Asked(g, Ev.a), <<>>) IN g' = r[1] /\ words' = Append(words, FlattenSeq(r[2]))
       /\ ins' = ins + 1 /\ UNCHANGED <<outs, y>> /\ Step
TOut == /\ More /\ Ev.e = "out" /\ outs < ins * Cfg.rows
        /\ LET t == (outs \div Cfg.rows) + 1
               b == (outs % Cfg.rows) + 1
           IN /\ y' = (IF b = 1 THEN Chain(Cfg.ws, words[t]) ELSE y)
              /\ (Part(y', Cfg.nd, b) = Ev.v) = TRUE
        /\ outs' = outs + 1 /\ UNCHANGED <<g, words, ins>> /\ Step
TEnd == More /\ Ev.e = "end" /\ ins = Cfg.n /\ outs = Cfg.n * Cfg.rows /\ UNCHANGED <<g, words, outs, y, ins>> /\ Step
TStop == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TIn \/ TOut \/ TEnd \/ TStop]_vars
==============================================================================
