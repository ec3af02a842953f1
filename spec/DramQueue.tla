----------------------------- MODULE DramQueue ------------------------------
(* What a DRAM channel owes its user.  Requests are accepted (Q), reported   *)
(* complete (D) and served by column commands (RD, WR); refreshes are        *)
(* counted per unit, a rank or a bank.  Within a cycle acceptances come      *)
(* first, then completions, then commands.                                   *)
(* Writes are posted: they complete once buffered and are written back later,*)
(* one write back serving every write to the address buffered until then;    *)
(* reads of a buffered address take the buffered value.                      *)
EXTENDS Integers, Sequences, FiniteSets
Fresh(units) == [dirty |-> {}, rd |-> <<>>, fwd |-> <<>>, ready |-> <<>>, wack |-> <<>>, last |-> [i \in 1..units |-> 0], count |-> [i \in 1..units |-> 0]]
(* entries are <<address, earliest completion>> *)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
First(q, a, t) == CHOOSE i \in 1..Len(q) : q[i][1] = a /\ q[i][2] <= t /\ \A j \in 1..(i - 1) : ~(q[j][1] = a /\ q[j][2] <= t)
Has(q, a, t) == \E i \in 1..Len(q) : q[i][1] = a /\ q[i][2] <= t
Waiting(s, a) == \E i \in 1..Len(s.rd) : s.rd[i][1] = a

(* the number of addresses waiting is bounded by the queues of the device *)
Room(s, cap) == Cardinality(s.dirty) <= cap /\ Cardinality({s.rd[i][1] : i \in 1..Len(s.rd)}) <= cap
Accept(s, a, w, t) ==
  IF w = 1 THEN [s EXCEPT !.dirty = @ \cup {a}, !.wack = Append(@, <<a, t + 1>>)]
  ELSE IF a \in s.dirty THEN [s EXCEPT !.fwd = Append(@, <<a, t + 1>>)]
  ELSE [s EXCEPT !.rd = Append(@, <<a, t>>)]
CanDone(s, a, w, t) == IF w = 1 THEN Has(s.wack, a, t) ELSE Has(s.ready, a, t) \/ Has(s.fwd, a, t)
Done(s, a, w, t) ==
  IF w = 1 THEN [s EXCEPT !.wack = Without(@, First(@, a, t))]
  ELSE IF Has(s.ready, a, t) THEN [s EXCEPT !.ready = Without(@, First(@, a, t))]
  ELSE [s EXCEPT !.fwd = Without(@, First(@, a, t))]
(* a read command serves every read of the address waiting *)
CanRead(s, a) == Waiting(s, a)
Served(q, a) == SelectSeq(q, LAMBDA e : e[1] = a)
Read(s, a, t, lat) == [s EXCEPT !.rd = SelectSeq(@, LAMBDA e : e[1] # a), !.ready = @ \o [i \in 1..Len(Served(s.rd, a)) |-> <<a, t + lat>>]]
(* reads accepted before the write must have read the old value *)
CanWrite(s, a) == a \in s.dirty /\ ~Waiting(s, a)
Write(s, a) == [s EXCEPT !.dirty = @ \ {a}]
CanRefresh(s, u, t, per, sref) == u \in 1..Len(s.last) /\ (sref \/ t - s.last[u] <= 2 * per)
Refresh(s, u, t) == [s EXCEPT !.last[u] = t, !.count[u] = @ + 1]
(* when the run ends with nothing more to send, only buffered writes may be left *)
AtEnd(s, t, unsent, per, sref) ==
  /\ unsent = 0 /\ s.rd = <<>> /\ s.fwd = <<>> /\ s.ready = <<>> /\ s.wack = <<>>
  /\ sref \/ \A u \in 1..Len(s.last) : t - s.last[u] <= 2 * per /\ s.count[u] + 2 >= t \div per
=============================================================================
