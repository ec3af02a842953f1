----------------------------- MODULE DepsTrace -----------------------------
(* Freedom from deadlock of a routing rule without adaptive choice: the      *)
(* graph whose nodes are the virtual channels and whose arrows say that a    *)
(* packet holding one waits for the other has no cycle.  Channels are taken  *)
(* away once nothing they wait for is left; all of them have to go.          *)
(* A trace gives, per channel, those it was seen to wait for.                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES tid, l, left

Traces == JsonDeserialize(IOEnv.TRACES)
Waits(t, c) == {Traces[t].cfg.waits[c][i] : i \in 1..Len(Traces[t].cfg.waits[c])}
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ left = 1..Len(Traces[tid].cfg.waits)
Free == {c \in left : Waits(tid, c) \cap left = {}}
Peel == /\ l = 1 /\ Free # {}
        /\ left' = left \ Free
        /\ UNCHANGED <<tid, l>>
(* every route used channels of its packet's class only *)
TEnd == /\ l = 1 /\ left = {}
        /\ Traces[tid].ev[l].e = "end" /\ Traces[tid].ev[l].inclass
        /\ l' = 2 /\ UNCHANGED <<tid, left>>
TDone == l = 2 /\ UNCHANGED <<tid, l, left>>
TraceNext == Peel \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, left>>
=============================================================================
