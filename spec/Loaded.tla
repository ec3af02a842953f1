------------------------------- MODULE Loaded -------------------------------
(* Matrix-vector engines (8 bit) whose instructions and matrices are sent to   *)
(* them.  A loader sends instructions to the end of the program of an engine;  *)
(* another sends rows to a place (address, row) of the memory of an engine.    *)
(* An engine runs its program over and over: the first instruction runs when an*)
(* input is there (and a partial sum, if it asks for one) and goes to the end. *)
(* Sums have all the bits they need; what leaves an engine is cut to Bits.     *)
EXTENDS Accel
Cut(v, bits) == IF bits = 0 THEN v ELSE [k \in DOMAIN v |-> ((v[k] + (2 ^ (bits - 1))) % (2 ^ bits)) - (2 ^ (bits - 1))]
RECURSIVE ChainCut(_, _, _)
ChainCut(Ws, x, bits) == IF Ws = <<>> THEN x ELSE ChainCut(Tail(Ws), Cut(MatVec(Head(Ws), x), bits), bits)
---------------------------------------------------------------------------
(* one engine *)
Eng0 == [prog |-> <<>>, mem |-> <<>>, acc |-> <<>>, q |-> <<>>, r |-> <<>>]
LoadInst(e, i) == [e EXCEPT !.prog = Append(@, i)]
LoadRow(e, nd, a, k, v) ==
  IF a \in DOMAIN e.mem THEN [e EXCEPT !.mem[a][k] = v]
  ELSE [e EXCEPT !.mem = Put(@, a, [j \in 1..nd |-> IF j = k THEN v ELSE <<>>])]
CanRun(e) == e.prog # <<>> /\ e.q # <<>> /\ (Head(e.prog).reduce = 1 => e.r # <<>>)
(* a row of zeros may be written <<>> *)
Product(W, x) == [k \in 1..Len(W) |-> IF W[k] = <<>> THEN 0 ELSE Dot(W[k], x)]
Value(e) ==
  LET i == Head(e.prog)
      b == Product(e.mem[i.raddr], Head(e.q))
      p == IF i.reduce = 1 THEN VAdd(b, Head(e.r)) ELSE b
  IN IF i.accum_en = 1 THEN VAdd(p, e.acc[i.accum]) ELSE p
Ran(e) ==
  LET i == Head(e.prog) IN
  [e EXCEPT !.prog = Append(Tail(@), i), !.acc = Put(@, i.accum, Value(e)),
            !.q = IF i.last = 1 THEN Tail(@) ELSE @, !.r = IF i.reduce = 1 THEN Tail(@) ELSE @]
---------------------------------------------------------------------------
(* engines numbered from 1; destination 0 is the way out.  op 1: an input, 0: a partial sum *)
Give(net, d, v) == [net EXCEPT ![d].q = Append(@, v)]
Pass(net, d, op, v) == IF op = 1 THEN Give(net, d, v) ELSE [net EXCEPT ![d].r = Append(@, v)]
(* the network after engine d ran an instruction, and what leaves it then *)
After(net, d, bits) ==
  LET e == net[d]
      i == Head(e.prog)
      v == Cut(Value(e), bits)
      n1 == [net EXCEPT ![d] = Ran(e)]
  IN IF i.release = 0 THEN <<n1, <<>>>>
     ELSE IF i.dest = 0 THEN <<n1, <<v>>>>
     ELSE <<Pass(n1, i.dest, i.op, v), <<>>>>
==============================================================================
