------------------------------ MODULE InterRad ------------------------------
(* The link between devices, one step per clock edge.  A beat accepted at an *)
(* edge is stored for its device unless the finite buffer is full, and is    *)
(* shown there in order, never before the latency has passed and exactly     *)
(* then when nothing was ahead of it.  The sending sides accept in A of every*)
(* B cycles.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
(* c: [n, T, A, B, S] devices, latency, share, slots *)
(* edges from the one a beat is accepted at to the one it is seen at: the     *)
(* output register changes at the T-th edge and is read at the next          *)
Lat(c) == (IF c.T < 1 THEN 1 ELSE c.T) + 1
Empty(c) == [d \in 1..c.n |-> <<>>]

(* what device d is shown at edge now; {} where that is wrong *)
Shown(c, q, now, o) ==
  IF o = "" THEN IF q # <<>> /\ Head(q).alone /\ now - Head(q).t >= Lat(c) THEN {} ELSE {q}
  ELSE IF q = <<>> \/ Head(q).m # o \/ now - Head(q).t < Lat(c) \/ (Head(q).alone /\ now - Head(q).t # Lat(c)) THEN {} ELSE {Tail(q)}

RECURSIVE Store(_, _, _, _, _)
(* the set of <<buffers, losses>> after beats a[i..] *)
Store(c, b, now, a, i) ==
  IF i > Len(a) THEN {<<b, 0>>}
  ELSE LET d == a[i].d + 1
           put == Store(c, [b EXCEPT ![d] = Append(@, [m |-> a[i].m, t |-> now, alone |-> b[d] = <<>>])], now, a, i + 1)
       IN IF Len(b[d]) < c.S THEN put
          ELSE put \cup {<<x[1], x[2] + 1>> : x \in Store(c, b, now, a, i + 1)}

(* all buffers that explain one edge *)
Edge(c, b, now, a, o, lost) ==
  IF \E d \in 1..c.n : Shown(c, b[d], now, o[d]) = {} THEN {}
  ELSE LET b1 == [d \in 1..c.n |-> CHOOSE q \in Shown(c, b[d], now, o[d]) : TRUE]
       IN {x[1] : x \in {y \in Store(c, b1, now, a, 1) : y[2] = lost}}

Sum(s) == LET RECURSIVE f(_)
              f(i) == IF i = 0 THEN 0 ELSE s[i] + f(i - 1) IN f(Len(s))
(* win: readiness of one sender at the last B edges *)
Push(c, win, r) == IF Len(win) < c.B THEN Append(win, r) ELSE Append(Tail(win), r)
Share(c, win) == Len(win) = c.B => Sum(win) = c.A
=============================================================================
