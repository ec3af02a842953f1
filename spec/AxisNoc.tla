------------------------------ MODULE AxisNoc ------------------------------
(* What a network-on-chip with streaming ports guarantees to its modules.   *)
(* A beat moves from a sending port into the network when valid and ready   *)
(* meet (Accept), is shown at the receiving port (Present) and leaves when  *)
(* valid and ready meet there (Take).                                       *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  chan,   \* [<<sender, receiver>> -> sequence of beats accepted, not yet shown]
  pres,   \* [receiver -> << >> or <<flow, beat>> being shown]
  out     \* [flow -> number of beats accepted and not yet taken]

axisVars == <<chan, pres, out>>

AxisInit(flows, recvs) ==
  /\ chan = [f \in flows |-> <<>>]
  /\ pres = [r \in recvs |-> <<>>]
  /\ out = [f \in flows |-> 0]

(* A port takes a beat only while the finite buffers of its path have room. *)
Accept(f, m, cap) ==
  /\ out[f] < cap
  /\ chan' = [chan EXCEPT ![f] = Append(@, m)]
  /\ out' = [out EXCEPT ![f] = @ + 1]
  /\ UNCHANGED pres

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* Positions of a flow that may be shown next: the oldest one when the      *)
(* fabric keeps order, any otherwise.                                       *)
Candidates(s, ordered) == IF ordered THEN (IF s = <<>> THEN {} ELSE {1}) ELSE 1..Len(s)

Present(r, m, ordered) ==
  /\ pres[r] = <<>>
  /\ \E f \in DOMAIN chan :
       /\ f[2] = r
       /\ \E i \in Candidates(chan[f], ordered) :
            /\ chan[f][i] = m
            /\ chan' = [chan EXCEPT ![f] = RemoveAt(@, i)]
            /\ pres' = [pres EXCEPT ![r] = <<f, m>>]
  /\ UNCHANGED out

Take(r) ==
  /\ pres[r] # <<>>
  /\ out' = [out EXCEPT ![pres[r][1]] = @ - 1]
  /\ pres' = [pres EXCEPT ![r] = <<>>]
  /\ UNCHANGED chan

Drained == (\A f \in DOMAIN chan : chan[f] = <<>>) /\ (\A r \in DOMAIN pres : pres[r] = <<>>)
=============================================================================
