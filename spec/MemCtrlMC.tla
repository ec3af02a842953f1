------------------------------ MODULE MemCtrlMC ------------------------------
(* The controller's queues over a memory that answers reads in any order:     *)
(* what leaves the port is always what MemCtrl promises, and every request is *)
(* answered.                                                                  *)
EXTENDS MemCtrl
CONSTANTS Words, N, Reorder
VARIABLES s, n, waq, wdq, raq, outr, outw, ooo, rr, br, mem, fly, wfly, ok
vars == <<s, n, waq, wdq, raq, outr, outw, ooo, rr, br, mem, fly, wfly, ok>>
Bursts == {<<w>> : w \in Words} \cup {<<v, w>> : v \in Words, w \in Words}
Init == /\ s = Fresh([w \in Words |-> 0]) /\ n = 0 /\ waq = <<>> /\ wdq = <<>> /\ raq = <<>>
        /\ outr = <<>> /\ outw = <<>> /\ ooo = [w \in Words |-> 0] /\ rr = <<>> /\ br = <<>>
        /\ mem = [w \in Words |-> 0] /\ fly = <<>> /\ wfly = <<>> /\ ok = TRUE
AW == /\ n < N
      /\ \E b \in Bursts : LET u == n + 1 IN
           /\ n' = n + 1
           /\ s' = WriteAddress(s, b)
           /\ waq' = waq \o [i \in 1..Len(b) |-> [w |-> b[i], u |-> u, last |-> i = Len(b)]]
      /\ UNCHANGED <<wdq, raq, outr, outw, ooo, rr, br, mem, fly, wfly, ok>>
(* the requester sends the data of its bursts in order, at any time *)
Unsent == SubSeq(waq, Len(wdq) + 1, Len(waq))
W == /\ Unsent # <<>>
     /\ LET x == Unsent[1] v == 10 * x.u + Len(Unsent) IN
          /\ s' = WriteData(s, v, x.u) /\ wdq' = Append(wdq, [v |-> v, u |-> x.u])
     /\ UNCHANGED <<n, waq, raq, outr, outw, ooo, rr, br, mem, fly, wfly, ok>>
AR == /\ n < N
      /\ \E b \in Bursts :
           /\ n' = n + 1
           /\ s' = ReadAddress(s, b, n + 1)
           /\ raq' = raq \o [i \in 1..Len(b) |-> [w |-> b[i], u |-> n + 1, last |-> i = Len(b)]]
      /\ UNCHANGED <<waq, wdq, outr, outw, ooo, rr, br, mem, fly, wfly, ok>>
IssueRead == /\ raq # <<>> /\ Len(fly) < 2
             /\ fly' = Append(fly, raq[1].w) /\ outr' = Append(outr, raq[1]) /\ raq' = Tail(raq)
             /\ UNCHANGED <<s, n, waq, wdq, outw, ooo, rr, br, mem, wfly, ok>>
IssueWrite == /\ waq # <<>> /\ wdq # <<>> /\ Len(wfly) < 2
              /\ wfly' = Append(wfly, waq[1].w)
              /\ outw' = Append(outw, [v |-> wdq[1].v, u |-> wdq[1].u, last |-> waq[1].last])
              /\ waq' = Tail(waq) /\ wdq' = Tail(wdq)
              /\ UNCHANGED <<s, n, raq, outr, ooo, rr, br, mem, fly, ok>>
(* reads at the head of the order whose data has come leave together *)
Give(q, cnt, out) ==
  LET F[k \in 0..Len(q)] ==
        IF k = 0 THEN [q |-> q, c |-> cnt, o |-> out]
        ELSE LET p == F[k - 1] IN
             IF p.q # <<>> /\ p.c[p.q[1].w] > 0
             THEN [q |-> Tail(p.q), c |-> [p.c EXCEPT ![p.q[1].w] = @ - 1], o |-> Append(p.o, [v |-> mem[p.q[1].w], u |-> p.q[1].u, last |-> p.q[1].last])]
             ELSE p
  IN F[Len(q)]
Done == \E i \in 1..Len(fly) :
          /\ fly' = [j \in 1..(Len(fly) - 1) |-> IF j < i THEN fly[j] ELSE fly[j + 1]]
          /\ IF Reorder
             THEN LET g == Give(outr, [ooo EXCEPT ![fly[i]] = @ + 1], rr) IN outr' = g.q /\ ooo' = g.c /\ rr' = g.o
             ELSE /\ outr' = Tail(outr) /\ UNCHANGED ooo
                  /\ rr' = Append(rr, [v |-> mem[fly[i]], u |-> outr[1].u, last |-> outr[1].last])
          /\ UNCHANGED <<s, n, waq, wdq, raq, outw, br, mem, wfly, ok>>
WDone == /\ wfly # <<>> /\ wfly' = Tail(wfly) /\ outw' = Tail(outw)
         /\ mem' = [mem EXCEPT ![wfly[1]] = outw[1].v]
         /\ br' = IF outw[1].last THEN Append(br, outw[1].u) ELSE br
         /\ UNCHANGED <<s, n, waq, wdq, raq, outr, ooo, rr, fly, ok>>
SendB == /\ br # <<>> /\ br' = Tail(br) /\ ok' = (ok /\ CanAck(s, br[1])) /\ s' = (IF CanAck(s, br[1]) THEN Ack(s) ELSE s)
         /\ UNCHANGED <<n, waq, wdq, raq, outr, outw, ooo, rr, mem, fly, wfly>>
SendR == /\ rr # <<>> /\ rr' = Tail(rr)
         /\ LET c == CanReturn(s, rr[1].v, rr[1].u, rr[1].last) IN ok' = (ok /\ c) /\ s' = (IF c THEN Return(s) ELSE s)
         /\ UNCHANGED <<n, waq, wdq, raq, outr, outw, ooo, br, mem, fly, wfly>>
Next == AW \/ W \/ AR \/ IssueRead \/ IssueWrite \/ Done \/ WDone \/ SendB \/ SendR
Spec == Init /\ [][Next]_vars /\ WF_vars(W) /\ WF_vars(IssueRead) /\ WF_vars(IssueWrite) /\ WF_vars(Done) /\ WF_vars(WDone) /\ WF_vars(SendB) /\ WF_vars(SendR)
Sound == ok
(* nothing is kept back once the requesters fall silent *)
Answered == (n = N) ~> Idle(s)
=============================================================================
