------------------------------ MODULE AximmNoc ------------------------------
(* Memory-mapped ports over the network.  Every beat of every channel (ar,  *)
(* aw, w towards a responder, r, b towards a requester) is a message of the *)
(* flow <<port/channel, port/channel>> as in AxisNoc; write data go to the  *)
(* responder of the address that they follow at the requester.              *)
EXTENDS AxisNoc

VARIABLES awq   \* [requester -> responders of the accepted write addresses whose data are not complete]

mmVars == <<axisVars, awq>>

MmInit(flows, recvs, reqs) == AxisInit(flows, recvs) /\ awq = [q \in reqs |-> <<>>]

AcceptAddress(f, m, cap, q, d) ==
  /\ Accept(f, m, cap)
  /\ awq' = [awq EXCEPT ![q] = Append(@, d)]

AcceptData(f, m, cap, q, d, last) ==
  /\ Accept(f, m, cap)
  /\ awq[q] # <<>>           \* no data before their address
  /\ Head(awq[q]) = d
  /\ awq' = [awq EXCEPT ![q] = IF last THEN Tail(@) ELSE @]

AcceptOther(f, m, cap) == Accept(f, m, cap) /\ UNCHANGED awq

MmPresent(r, m) == Present(r, m, TRUE) /\ UNCHANGED awq
MmTake(r) == Take(r) /\ UNCHANGED awq
=============================================================================
