----------------------------- MODULE InterRadMC -----------------------------
(* Design of the link: a FIFO per device whose writes become visible after  *)
(* the edge, an age counter per beat, an output register, and a counter     *)
(* that gates the readiness of all senders.  Every step has to be one that  *)
(* InterRad explains.                                                       *)
EXTENDS InterRad, TLC
CONSTANTS N, T, A, B, S, Beats, ReadFirst
VARIABLES fifo, reg, bw, rdy, now, left, abs, ok, win
vars == <<fifo, reg, bw, rdy, now, left, abs, ok, win>>
C == [n |-> N, T |-> T, A |-> A, B |-> B, S |-> S]
D == 1..N
MCInit ==
  /\ fifo = Empty(C) /\ reg = [d \in D |-> ""] /\ bw = 0 /\ rdy = TRUE /\ now = 1 /\ left = Beats
  /\ abs = Empty(C) /\ ok = TRUE /\ win = <<>>
RECURSIVE Put(_, _, _)
Put(f, a, i) == IF i > Len(a) THEN <<f, 0>>
  ELSE IF Len(f[a[i].d + 1]) < S THEN Put([f EXCEPT ![a[i].d + 1] = Append(@, [m |-> a[i].m, age |-> 0])], a, i + 1)
  ELSE LET r == Put(f, a, i + 1) IN <<r[1], r[2] + 1>>
Aged(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.age = @ + 1]]
Step(a) ==
  LET w == Put(fifo, a, 1)
      (* ages of the beats just written grow at once unless reading goes first,  *)
      (* and then they would be delivered one cycle before the latency          *)
      grown == [d \in D |-> IF ReadFirst THEN Aged(fifo[d]) \o SubSeq(w[1][d], Len(fifo[d]) + 1, Len(w[1][d])) ELSE Aged(w[1][d])]
      go(d) == Len(fifo[d]) > 0 /\ grown[d][1].age >= T
      e == Edge(C, abs, now, a, reg, w[2])
  IN /\ fifo' = [d \in D |-> IF go(d) THEN Tail(grown[d]) ELSE grown[d]]
     /\ reg' = [d \in D |-> IF go(d) THEN grown[d][1].m ELSE ""]
     /\ win' = (IF now < 3 THEN win ELSE Push(C, win, IF rdy THEN 1 ELSE 0))
     /\ ok' = (ok /\ e # {} /\ Share(C, win'))
     /\ abs' \in (IF e = {} THEN {abs} ELSE e)
     /\ left' = left - Len(a)
     /\ now' = now + 1
     /\ rdy' = (IF now = 1 THEN 0 < A ELSE bw < A)
     /\ bw' = (bw + 1) % B
(* at most one beat per sender and edge *)
MCNext ==
  /\ ok /\ now < 30
  /\ \E send \in SUBSET (IF rdy THEN D ELSE {}) : Cardinality(send) <= left /\
       \E dst \in [send -> 0..N - 1] :
         LET s == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \in send)
         IN Step([i \in 1..Len(s) |-> [s |-> s[i] - 1, d |-> dst[s[i]], m |-> ToString(<<now, s[i]>>)]])
MCSpec == MCInit /\ [][MCNext]_vars
Explained == ok
Bounded == \A d \in D : Len(fifo[d]) <= S
=============================================================================
