------------------------------- MODULE AccelMC -------------------------------
(* Closed models: a reducing unit behind a queue, and blocked engines (width 1)*)
(* that run in any order, fed in any order.  Way # "sound" is an implementation*)
(* that goes wrong.                                                            *)
EXTENDS Accel, TLC
CONSTANTS Kind, Way, Cols, Rows, Inputs, Engines
E1 == <<1>>
E2 == <<2>>
E3 == <<3>>
E22 == <<2, 2>>
E122 == <<1, 2, 2>>
ASSUME Kind \in {"unit", "net"}
VARIABLES u, q, sent, vals, told, net, out, fed, own
vars == <<u, q, sent, vals, told, net, out, fed, own>>
---------------------------------------------------------------------------
(* the unit: values wait in a queue of two places *)
Unit0 == Kind = "unit"
Op == IF Unit0 THEN vals[1] ELSE "add"
Lists == UNION {[1..n -> {<<>>, <<3>>, <<4095, 4095>>}] : n \in 1..Inputs}
Push == /\ Unit0 /\ sent < Len(vals[2])
        /\ \/ Len(q) < 2 /\ q' = Append(q, <<vals[2][sent + 1], sent + 1 = Len(vals[2])>>)
           \/ Way = "lossy" /\ Len(q) = 2 /\ q' = q
        /\ sent' = sent + 1 /\ UNCHANGED <<u, vals, told, net, out, fed, own>>
Pull == /\ Unit0 /\ q # <<>> /\ u' = Take(Op, u, Head(q)[1], Head(q)[2]) /\ q' = Tail(q)
        /\ UNCHANGED <<sent, vals, told, net, out, fed, own>>
May == CASE Way = "early" -> u.n > 0 /\ q = <<>>
         [] Way = "count" -> sent = Len(vals[2])
         [] OTHER -> u.closed
Answer == /\ Unit0 /\ May /\ (IF Way = "twice" THEN Len(told) < 2 ELSE ~u.told)
          /\ u' = Tell(u) /\ told' = Append(told, u.acc) /\ UNCHANGED <<q, sent, vals, net, out, fed, own>>
Whole == FoldLeft(LAMBDA a, v : Fold(Op, a, v), Unit(Op), vals[2])
---------------------------------------------------------------------------
(* the engines: layer l has Engines[l] of them and Width[l] columns; own says which of   *)
(* the engines of a layer has a column.  Matrices differ in every entry.                 *)
L == Len(Engines)
Width(l) == IF l = 1 THEN Cols ELSE Rows
W(l) == [r \in 1..Rows |-> [c \in 1..Width(l) |-> (2 * l) + (3 * r) - (5 * c)]]
Owners == {f \in [1..L -> [1..(IF Cols > Rows THEN Cols ELSE Rows) -> 1..3]] :
             \A l \in 1..L : /\ {f[l][c] : c \in 1..Width(l)} = 1..Engines[l]
                             /\ \A c \in DOMAIN f[l] : c > Width(l) => f[l][c] = 1}
RECURSIVE Mine(_, _, _)
Mine(l, m, c) == IF c > Width(l) THEN <<>> ELSE (IF own[l][c] = m THEN <<c>> ELSE <<>>) \o Mine(l, m, c + 1)
Bit(b) == IF b THEN 1 ELSE 0
Prog(l, m) ==
  LET cols == Mine(l, m, 1)
      n == Len(cols)
      I(a, j) == [en |-> 1, jump |-> 0, last |-> Bit(j = Rows), accum |-> j, raddr |-> ((a - 1) * Rows) + j - 1,
                  accum_en |-> Bit(a > 1 \/ Way = "noclear"), release |-> Bit(a = n \/ Way = "early"),
                  reduce |-> Bit(m > 1 /\ (a = n \/ Way = "reduceall") /\ Way # "noreduce"),
                  dl |-> IF m < Engines[l] THEN l ELSE IF l = L THEN 0 ELSE l + 1,
                  dm |-> IF m < Engines[l] THEN m ELSE IF l = L THEN 0 ELSE IF Way = "dest" THEN 0 ELSE own[l + 1][j] - 1]
  IN [k \in 1..(n * Rows) |-> I(((k - 1) \div Rows) + 1, ((k - 1) % Rows) + 1)]
     \o <<[en |-> 1, jump |-> 1, last |-> 0, accum |-> 0, raddr |-> 0, accum_en |-> 0, release |-> 0, reduce |-> 0, dl |-> 0, dm |-> 0]>>
Progs == [l \in 1..L |-> [m \in 1..Engines[l] |-> Prog(l, m)]]
Mem(l, m) == LET cols == Mine(l, m, 1) IN [k \in 1..(Len(cols) * Rows) |-> <<<<W(l)[((k - 1) % Rows) + 1][cols[((k - 1) \div Rows) + 1]]>>>>]
Mems == [l \in 1..L |-> [m \in 1..Engines[l] |-> Mem(l, m)]]
Xin(t) == [c \in 1..Cols |-> (7 * t) - c]
(* engine d is given its parts of the inputs in order *)
Count(d) == Len(Mine(1, d, 1))
Item(d, i) == Xin(((i - 1) \div Count(d)) + 1)[Mine(1, d, 1)[((i - 1) % Count(d)) + 1]]
Give == /\ Kind = "net"
        /\ \E d \in 1..Engines[1] : /\ fed[d] < Inputs * Count(d)
                                    /\ LET first == Item(d, fed[d] + 1) IN
                                       net' = (IF Way = "unordered" THEN [net EXCEPT ![1][d].q = <<<<first>>>> \o @] ELSE Feed(net, d, <<first>>))
                                    /\ fed' = [fed EXCEPT ![d] = @ + 1]
        /\ UNCHANGED <<u, q, sent, vals, told, out, own>>
Start(p) == IF Way = "noclear" THEN [l \in DOMAIN p |-> [m \in DOMAIN p[l] |-> [Engine0 EXCEPT !.acc = [j \in 1..Rows |-> <<0>>]]]] ELSE Net0(p)
Work == /\ Kind = "net"
        /\ \E l \in 1..L : \E m \in 1..Engines[l] :
             /\ CanStep(net, Progs, l, m)
             /\ LET s == Stepped(net, Progs, Mems, l, m) IN net' = s[1] /\ out' = out \o s[2]
        /\ UNCHANGED <<u, q, sent, vals, told, fed, own>>
Want(k) == Chain([l \in 1..L |-> W(l)], Xin(((k - 1) \div Rows) + 1))[((k - 1) % Rows) + 1]
---------------------------------------------------------------------------
Init == /\ q = <<>> /\ sent = 0 /\ told = <<>> /\ out = <<>>
        /\ IF Unit0 THEN /\ vals \in {"add", "mult"} \X Lists /\ u = Idle(vals[1]) /\ own = <<>> /\ net = <<>> /\ fed = <<>>
           ELSE vals = <<>> /\ u = <<>> /\ own \in Owners /\ net = Start(Progs) /\ fed = [d \in 1..Engines[1] |-> 0]
Next == Push \/ Pull \/ Answer \/ Give \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == IF Unit0 THEN Len(told) <= 1 /\ \A i \in DOMAIN told : told[i] = Whole
         ELSE Len(out) <= Inputs * Rows /\ \A k \in DOMAIN out : out[k] = <<Want(k)>>
Done == <>[](IF Unit0 THEN Len(told) = 1 ELSE Len(out) = Inputs * Rows)
==============================================================================
