-------------------------------- MODULE Dlrm --------------------------------
(* The recommendation-model example: the vectors of an input are read from   *)
(* memory channels, wait in one queue per channel, are put together to words *)
(* by a gather program that is run over and over, and the words of an input, *)
(* dealt out to the engines of the first layer, make the vector the layers   *)
(* are applied to.                                                           *)
EXTENDS Accel

(* A gather instruction is a sequence of slices [f, lo, hi, pop]: elements lo to hi of *)
(* the front of queue f (of zeros for f = 0), which is left afterwards when pop = 1.   *)
Gather0(n) == [pc |-> 0, q |-> [c \in 1..n |-> <<>>]]
Arrive(g, c, v) == [g EXCEPT !.q[c] = Append(@, v)]
GInst(prog, g) == prog[g.pc + 1]
(* how many vectors of queue c slices 1..k leave behind *)
Left(inst, c, k) == Cardinality({j \in 1..k : inst[j].f = c /\ inst[j].pop = 1})
Able(prog, g) == \A k \in DOMAIN GInst(prog, g) : LET s == GInst(prog, g)[k] IN s.f = 0 \/ Len(g.q[s.f]) > Left(GInst(prog, g), s.f, k - 1)
Slice(inst, g, k) ==
  LET s == inst[k] IN
  IF s.f = 0 THEN [i \in 1..(s.hi - s.lo + 1) |-> 0]
  ELSE SubSeq(g.q[s.f][Left(inst, s.f, k - 1) + 1], s.lo + 1, s.hi + 1)
Word(prog, g) == LET i == GInst(prog, g) IN FlattenSeq([k \in DOMAIN i |-> Slice(i, g, k)])
Gone(q, n) == SubSeq(q, n + 1, Len(q))
Gathered(prog, g) ==
  LET i == GInst(prog, g) IN
  [pc |-> (g.pc + 1) % Len(prog), q |-> [c \in DOMAIN g.q |-> Gone(g.q[c], Left(i, c, Len(i)))]]
(* the words that can be put together at once *)
RECURSIVE Run(_, _, _)
Run(prog, g, ws) == IF Able(prog, g) THEN Run(prog, Gathered(prog, g), Append(ws, Word(prog, g))) ELSE <<g, ws>>
RECURSIVE RunTo(_, _, _, _)
RunTo(prog, g, ws, k) == IF k > 0 /\ Able(prog, g) THEN RunTo(prog, Gathered(prog, g), Append(ws, Word(prog, g)), k - 1) ELSE <<g, ws>>
(* a program with words that need nothing would never end: one input at a time *)
Pass(prog, g, ws) == RunTo(prog, g, ws, Len(prog) - g.pc)
==============================================================================
