------------------------------ MODULE AxisPath ------------------------------
(* The streaming path as RAD-Sim builds it: sender adapter (two-entry input *)
(* FIFO, packetizer, injection FIFO), fabric virtual channels under credit  *)
(* flow control with wormhole ownership, receiver adapter (one ejection     *)
(* register, ejection FIFO per virtual channel, depacketizer, output FIFO   *)
(* per port) and the one-credit-per-cycle return path.  It refines AxisNoc. *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Ports,    \* sending ports
          Recvs,    \* receiving ports
          SrcNode(_), VcOf(_), DstNode(_), Dests(_),
          K,        \* messages per sending port
          NF,       \* flits per packet
          B,        \* fabric buffer depth per virtual channel
          F,        \* adapter FIFO depth
          O,        \* output FIFO depth (packets)
          CreditGuard  \* adapter waits for its credit to be picked up

SNodes == {SrcNode(p) : p \in Ports}
DNodes == {DstNode(r) : r \in Recvs}
VCs == {VcOf(p) : p \in Ports}
None == 0

VARIABLES sent, inq, pkc, inj, link, own, cred, wire, ejf, cur, got, crp, outq, shown
vars == <<sent, inq, pkc, inj, link, own, cred, wire, ejf, cur, got, crp, outq, shown>>

Msg(p, n, r) == [p |-> p, n |-> n, r |-> r]
Flit(m, i) == [m |-> m, i |-> i]
IsTail(f) == f.i = NF
V(f) == VcOf(f.m.p)

Init ==
  /\ sent = [p \in Ports |-> 0]
  /\ inq = [n \in SNodes |-> <<>>]
  /\ pkc = [n \in SNodes |-> 0]
  /\ inj = [n \in SNodes |-> <<>>]
  /\ link = [n \in SNodes |-> [v \in VCs |-> <<>>]]
  /\ own = [d \in DNodes |-> [v \in VCs |-> None]]
  /\ cred = [d \in DNodes |-> [v \in VCs |-> B]]
  /\ wire = [d \in DNodes |-> <<>>]
  /\ ejf = [d \in DNodes |-> [v \in VCs |-> <<>>]]
  /\ cur = [d \in DNodes |-> None]
  /\ got = [d \in DNodes |-> 0]
  /\ crp = [d \in DNodes |-> None]
  /\ outq = [r \in Recvs |-> <<>>]
  /\ shown = [r \in Recvs |-> FALSE]

(* valid and ready meet at a sending port *)
Accept(p) ==
  /\ sent[p] < K
  /\ Len(inq[SrcNode(p)]) < 2
  /\ \E r \in Dests(p) : inq' = [inq EXCEPT ![SrcNode(p)] = Append(@, Msg(p, sent[p] + 1, r))]
  /\ sent' = [sent EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<pkc, inj, link, own, cred, wire, ejf, cur, got, crp, outq, shown>>

Packetize(n) ==
  /\ inq[n] # <<>> /\ Len(inj[n]) < F
  /\ inj' = [inj EXCEPT ![n] = Append(@, Flit(Head(inq[n]), pkc[n] + 1))]
  /\ IF pkc[n] + 1 = NF
       THEN pkc' = [pkc EXCEPT ![n] = 0] /\ inq' = [inq EXCEPT ![n] = Tail(@)]
       ELSE pkc' = [pkc EXCEPT ![n] = @ + 1] /\ UNCHANGED inq
  /\ UNCHANGED <<sent, link, own, cred, wire, ejf, cur, got, crp, outq, shown>>

Inject(n) ==
  /\ inj[n] # <<>>
  /\ LET f == Head(inj[n]) IN
       /\ Len(link[n][V(f)]) < B
       /\ link' = [link EXCEPT ![n][V(f)] = Append(@, f)]
  /\ inj' = [inj EXCEPT ![n] = Tail(@)]
  /\ UNCHANGED <<sent, inq, pkc, own, cred, wire, ejf, cur, got, crp, outq, shown>>

(* the fabric moves a flit towards the node of its destination *)
Cross(n, v) ==
  /\ link[n][v] # <<>>
  /\ LET f == Head(link[n][v])
         d == DstNode(f.m.r) IN
       /\ IF f.i = 1 THEN own[d][v] = None ELSE own[d][v] = n
       /\ cred[d][v] > 0
       /\ own' = [own EXCEPT ![d][v] = IF IsTail(f) THEN None ELSE n]
       /\ cred' = [cred EXCEPT ![d][v] = @ - 1]
       /\ wire' = [wire EXCEPT ![d] = Append(@, f)]
  /\ link' = [link EXCEPT ![n][v] = Tail(@)]
  /\ UNCHANGED <<sent, inq, pkc, inj, ejf, cur, got, crp, outq, shown>>

(* one ejection register per node: a full FIFO stalls every virtual channel *)
Eject(d) ==
  /\ wire[d] # <<>>
  /\ LET f == Head(wire[d]) IN
       /\ Len(ejf[d][V(f)]) < F
       /\ ejf' = [ejf EXCEPT ![d][V(f)] = Append(@, f)]
  /\ wire' = [wire EXCEPT ![d] = Tail(@)]
  /\ UNCHANGED <<sent, inq, pkc, inj, link, own, cred, cur, got, crp, outq, shown>>

Complete(s) == \E i \in 1..Len(s) : IsTail(s[i])

Depacketize(d, v) ==
  /\ CreditGuard => crp[d] = None
  /\ ejf[d][v] # <<>>
  /\ cur[d] = None \/ cur[d] = v
  /\ LET f == Head(ejf[d][v]) IN
       /\ cur[d] = None => Complete(ejf[d][v])
       /\ Len(outq[f.m.r]) < O
       /\ IF IsTail(f)
            THEN /\ outq' = [outq EXCEPT ![f.m.r] = Append(@, f.m)]
                 /\ cur' = [cur EXCEPT ![d] = None]
                 /\ got' = [got EXCEPT ![d] = 0]
            ELSE /\ cur' = [cur EXCEPT ![d] = v]
                 /\ got' = [got EXCEPT ![d] = @ + 1]
                 /\ UNCHANGED outq
       /\ crp' = [crp EXCEPT ![d] = IF @ = None THEN v ELSE @]  \* a map holds one
  /\ ejf' = [ejf EXCEPT ![d][v] = Tail(@)]
  /\ UNCHANGED <<sent, inq, pkc, inj, link, own, cred, wire, shown>>

ReturnCredit(d) ==
  /\ crp[d] # None
  /\ cred' = [cred EXCEPT ![d][crp[d]] = @ + 1]
  /\ crp' = [crp EXCEPT ![d] = None]
  /\ UNCHANGED <<sent, inq, pkc, inj, link, own, wire, ejf, cur, got, outq, shown>>

Present(r) ==
  /\ ~shown[r] /\ outq[r] # <<>>
  /\ shown' = [shown EXCEPT ![r] = TRUE]
  /\ UNCHANGED <<sent, inq, pkc, inj, link, own, cred, wire, ejf, cur, got, crp, outq>>

Take(r) ==
  /\ shown[r]
  /\ shown' = [shown EXCEPT ![r] = FALSE]
  /\ outq' = [outq EXCEPT ![r] = Tail(@)]
  /\ UNCHANGED <<sent, inq, pkc, inj, link, own, cred, wire, ejf, cur, got, crp>>

Finished ==
  /\ \A p \in Ports : sent[p] = K
  /\ \A n \in SNodes : inq[n] = <<>> /\ inj[n] = <<>> /\ \A v \in VCs : link[n][v] = <<>>
  /\ \A d \in DNodes : wire[d] = <<>> /\ crp[d] = None /\ \A v \in VCs : ejf[d][v] = <<>>
  /\ \A r \in Recvs : outq[r] = <<>>
  /\ UNCHANGED vars

Next ==
  \/ \E p \in Ports : Accept(p)
  \/ \E n \in SNodes : Packetize(n) \/ Inject(n) \/ \E v \in VCs : Cross(n, v)
  \/ \E d \in DNodes : Eject(d) \/ ReturnCredit(d) \/ \E v \in VCs : Depacketize(d, v)
  \/ \E r \in Recvs : Present(r) \/ Take(r)
  \/ Finished

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every step but Finished moves a flit or message forward, so behaviours   *)
(* are finite: absence of deadlock is delivery of everything.               *)

(* flits of one packet are contiguous and in order on a virtual channel *)
Contiguous(s) ==
  \A i \in 1..Len(s) - 1 :
    IF IsTail(s[i]) THEN s[i + 1].i = 1 ELSE s[i + 1].m = s[i].m /\ s[i + 1].i = s[i].i + 1
OnVc(s, v) == SelectSeq(s, LAMBDA f : V(f) = v)
Wormhole == \A d \in DNodes, v \in VCs : Contiguous(ejf[d][v] \o OnVc(wire[d], v))

(* credits never exceed the buffer, and none is lost *)
Credits ==
  \A d \in DNodes, v \in VCs :
    cred[d][v] + Len(OnVc(wire[d], v)) + Len(ejf[d][v]) + (IF crp[d] = v THEN 1 ELSE 0) = B

Bounds ==
  /\ \A n \in SNodes : Len(inq[n]) <= 2 /\ Len(inj[n]) <= F /\ \A v \in VCs : Len(link[n][v]) <= B
  /\ \A d \in DNodes, v \in VCs : Len(ejf[d][v]) <= F
  /\ \A r \in Recvs : Len(outq[r]) <= O

-----------------------------------------------------------------------------
(* Refinement: AxisNoc sees a message in flight until its tail is shown.    *)
Tails(s) == LET t == SelectSeq(s, IsTail) IN [i \in 1..Len(t) |-> t[i].m]
Of(s, p, r) == SelectSeq(s, LAMBDA m : m.p = p /\ m.r = r)
InFlight(p, r) ==
  LET d == DstNode(r)  v == VcOf(p)  n == SrcNode(p) IN
  Of((IF shown[r] THEN Tail(outq[r]) ELSE outq[r])
     \o Tails(ejf[d][v]) \o Tails(OnVc(wire[d], v)) \o Tails(link[n][v]) \o Tails(inj[n]) \o inq[n], p, r)
Flows == {<<p, r>> \in Ports \X Recvs : r \in Dests(p)}
absChan == [f \in Flows |-> InFlight(f[1], f[2])]
absPres == [r \in Recvs |-> IF shown[r] THEN <<(<<Head(outq[r]).p, r>>), Head(outq[r])>> ELSE <<>>]
absOut == [f \in Flows |-> Len(absChan[f]) + (IF shown[f[2]] /\ Head(outq[f[2]]).p = f[1] THEN 1 ELSE 0)]
Abs == INSTANCE AxisNoc WITH chan <- absChan, pres <- absPres, out <- absOut

AbsNext ==
  \/ \E f \in Flows, n \in 1..K : Abs!Accept(f, Msg(f[1], n, f[2]), 1000)
  \/ \E r \in Recvs : \E f \in Flows, n \in 1..K : f[2] = r /\ Abs!Present(r, Msg(f[1], n, r), TRUE)
  \/ \E r \in Recvs : Abs!Take(r)
Refines == [][AbsNext]_<<absChan, absPres, absOut>>
=============================================================================
