-------------------------------- MODULE Accel --------------------------------
(* The example accelerators.                                                   *)
(*                                                                             *)
(* 1. The adder and the multiplier: values come in over the NoC one by one, the*)
(*    last of them marked; the unit keeps a running sum (product) and answers  *)
(*    once, after the last.  Numbers of any size are sequences of base-4096    *)
(*    digits, the lowest first.                                                *)
(* 2. Matrix-vector engines.  An engine runs a program over an input queue, a  *)
(*    queue of partial sums of the engine before it, a memory of matrices and  *)
(*    one of accumulators; its results go to the partial-sum queue of an engine*)
(*    of its own layer, to the input queue of one of another layer, or out.    *)
(* 3. What the engines are for: out comes W_L * ... * W_1 * x.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Base == 4096
---------------------------------------------------------------------------
(* arithmetic *)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET x == IF a = <<>> THEN 0 ELSE Head(a)
           y == IF b = <<>> THEN 0 ELSE Head(b)
           z == x + y + c
       IN <<z % Base>> \o AddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), z \div Base)
RECURSIVE Scale(_, _, _)
Scale(a, d, c) ==
  IF a = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET z == Head(a) * d + c IN <<z % Base>> \o Scale(Tail(a), d, z \div Base)
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Sum2(a, b) == Norm(AddC(a, b, 0))
RECURSIVE Prod2(_, _)
Prod2(a, b) == IF b = <<>> THEN <<>> ELSE Norm(AddC(Scale(a, Head(b), 0), <<0>> \o Prod2(a, Tail(b)), 0))
Unit(kind) == IF kind = "add" THEN <<>> ELSE <<1>>
Fold(kind, acc, v) == IF kind = "add" THEN Sum2(acc, v) ELSE Prod2(acc, v)

(* the state of a reducing unit *)
Idle(kind) == [acc |-> Unit(kind), n |-> 0, closed |-> FALSE, told |-> FALSE]
TakeOk(u) == ~u.closed
Take(kind, u, v, last) == [u EXCEPT !.acc = Fold(kind, @, v), !.n = @ + 1, !.closed = last]
TellOk(u, v) == u.closed /\ ~u.told /\ v = u.acc
Tell(u) == [u EXCEPT !.told = TRUE]
Answered(u, want) == u.told /\ u.n = Len(want)
---------------------------------------------------------------------------
(* vectors *)
Dot(w, x) == FoldLeft(LAMBDA a, i : a + (w[i] * x[i]), 0, [i \in 1..Len(x) |-> i])
MatVec(W, x) == [r \in 1..Len(W) |-> Dot(W[r], x)]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
RECURSIVE Chain(_, _)
Chain(Ws, x) == IF Ws = <<>> THEN x ELSE Chain(Tail(Ws), MatVec(Head(Ws), x))
(* the b-th of the parts of width nd *)
Part(y, nd, b) == SubSeq(y, (b - 1) * nd + 1, b * nd)
---------------------------------------------------------------------------
(* one engine; instructions and matrices are addressed from 0 *)
Engine0 == [pc |-> 0, acc |-> <<>>, q |-> <<>>, r |-> <<>>]
Inst(prog, e) == prog[e.pc + 1]
AtJump(prog, e) == Inst(prog, e).en = 1 /\ Inst(prog, e).jump = 1
AtDot(prog, e) == LET i == Inst(prog, e) IN i.en = 1 /\ i.jump = 0 /\ e.q # <<>> /\ (i.reduce = 1 => e.r # <<>>)
Result(prog, mem, e) ==
  LET i == Inst(prog, e)
      b == MatVec(mem[i.raddr + 1], Head(e.q))
      p == IF i.reduce = 1 THEN VAdd(b, Head(e.r)) ELSE b
  IN IF i.accum_en = 1 THEN VAdd(p, e.acc[i.accum]) ELSE p
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Jumped(prog, e) == [e EXCEPT !.pc = Inst(prog, e).raddr]
Dotted(prog, mem, e) ==
  LET i == Inst(prog, e) IN
  [e EXCEPT !.pc = @ + 1, !.acc = Put(@, i.accum, Result(prog, mem, e)),
            !.q = IF i.last = 1 THEN Tail(@) ELSE @, !.r = IF i.reduce = 1 THEN Tail(@) ELSE @]
---------------------------------------------------------------------------
(* a network of engines: net[l][m]; out collects what leaves it *)
Net0(prog) == [l \in DOMAIN prog |-> [m \in DOMAIN prog[l] |-> Engine0]]
Feed(net, d, v) == [net EXCEPT ![1][d].q = Append(@, v)]
CanStep(net, prog, l, m) == AtJump(prog[l][m], net[l][m]) \/ AtDot(prog[l][m], net[l][m])
(* the network after a step of engine (l, m), and what leaves it then *)
Stepped(net, prog, mem, l, m) ==
  LET e == net[l][m]
      p == prog[l][m]
  IN IF AtJump(p, e) THEN <<[net EXCEPT ![l][m] = Jumped(p, e)], <<>>>>
     ELSE LET i == Inst(p, e)
              v == Result(p, mem[l][m], e)
              n1 == [net EXCEPT ![l][m] = Dotted(p, mem[l][m], e)]
          IN IF i.release = 0 THEN <<n1, <<>>>>
             ELSE IF i.dl = 0 THEN <<n1, <<v>>>>
             ELSE IF i.dl = l THEN <<[n1 EXCEPT ![l][i.dm + 1].r = Append(@, v)], <<>>>>
             ELSE <<[n1 EXCEPT ![i.dl][i.dm + 1].q = Append(@, v)], <<>>>>
==============================================================================
