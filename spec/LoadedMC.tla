------------------------------ MODULE LoadedMC ------------------------------
(* Closed model: two loaders, each with one list and one channel to every       *)
(* engine, load three engines; then inputs are fed.  Engines 1 and 2 hold half*)
(* of the columns each, engine 2 adds the partial sums of 1 and passes results *)
(* to 3.  Width 1.  Way # "sound" goes wrong somewhere.                        *)
EXTENDS Loaded, TLC
CONSTANTS Way, Inputs, Bits, Again
VARIABLES net, wch, ich, wleft, ileft, fed, out
vars == <<net, wch, ich, wleft, ileft, fed, out>>
Rows == 2
(* columns 1, 3 on engine 1; 2, 4 on engine 2; layer two has Rows columns and one row *)
W1(r, c) == <<<<(17 * r) - (23 * c)>>>>
W2(c) == <<<<40 + (9 * c)>>>>
I(rd, ac, la, re, ae, rx, ds, op) == [raddr |-> rd, accum |-> ac, last |-> la, release |-> re, accum_en |-> ae, reduce |-> rx, dest |-> ds, op |-> op]
B(p) == IF p THEN 1 ELSE 0
First(m) == [k \in 1..4 |-> LET a == (k - 1) \div 2  j == ((k - 1) % 2) + 1 IN
              I(k - 1, j, B(j = Rows), B(a = 1), B(a = 1), B(m = 2 /\ a = 1), IF m = 1 THEN 2 ELSE 3, B(m = 2))]
Prog(d) == IF d < 3 THEN First(d) ELSE <<I(0, 1, 1, 0, 0, 0, 0, 0), I(1, 1, 1, 1, 1, 0, 0, 0)>>
(* Again: a first, wrong row at address 0 of every engine, and the right one after it *)
Right(d) == IF d < 3 THEN [k \in 1..4 |-> <<k - 1, W1(((k - 1) % 2) + 1, (((k - 1) \div 2) * 2) + d)[1]>>] ELSE [k \in 1..2 |-> <<k - 1, W2(k)[1]>>]
Data(d) == IF Again THEN <<<<0, <<99>>>>>> \o Right(d) ELSE Right(d)
X(t, c) == <<(31 * t) - (12 * c)>>
E == 1..3
(* the loaders take engine after engine, or one of each in turn *)
RECURSIVE Turns(_, _)
Turns(f, k) == IF \A d \in E : Len(f[d]) < k THEN <<>>
               ELSE FlattenSeq([d \in E |-> IF Len(f[d]) >= k THEN <<<<d, f[d][k]>>>> ELSE <<>>]) \o Turns(f, k + 1)
Row1(f) == FlattenSeq([d \in E |-> [k \in DOMAIN f[d] |-> <<d, f[d][k]>>]])
Lists(f) == {Turns(f, 1), Row1(f)}
Mod(a) == Cut(a, Bits)
Want(t) == LET h(r) == Mod(<<W1(r, 1)[1][1] * X(t, 1)[1] + W1(r, 2)[1][1] * X(t, 2)[1] + W1(r, 3)[1][1] * X(t, 3)[1] + W1(r, 4)[1][1] * X(t, 4)[1]>>)
           IN Mod(<<W2(1)[1][1] * h(1)[1] + W2(2)[1][1] * h(2)[1]>>)
(* what a wrong way does not touch is there from the start *)
WThere == Way \in {"swap", "full", "uncut", "once"}
IThere == Way \in {"astray", "stack", "uncut", "once"}
Start(d) == LET a == (IF WThere THEN FoldLeft(LAMBDA e, x : LoadRow(e, 1, x[1], 1, x[2]), Eng0, Data(d)) ELSE Eng0)
            IN IF IThere THEN FoldLeft(LAMBDA e, x : LoadInst(e, x), a, Prog(d)) ELSE a
Init == /\ net = [d \in E |-> Start(d)] /\ wch = [d \in E |-> <<>>] /\ ich = [d \in E |-> <<>>]
        /\ wleft \in (IF WThere THEN {<<>>} ELSE Lists([d \in E |-> Data(d)]))
        /\ ileft \in (IF IThere THEN {<<>>} ELSE Lists([d \in E |-> Prog(d)]))
        /\ fed = <<0, 0>> /\ out = <<>>
SendW == /\ wleft # <<>>
         /\ LET d == Head(wleft)[1]
                x == Head(wleft)[2]
            IN /\ Len(wch[d]) < 2
               /\ wch' = [wch EXCEPT ![IF Way = "astray" /\ d = 2 THEN 1 ELSE d] = (IF Way = "stack" THEN <<x>> \o @ ELSE Append(@, x))]
         /\ wleft' = Tail(wleft) /\ UNCHANGED <<net, ich, ileft, fed, out>>
SendI == /\ ileft # <<>>
         /\ LET d == Head(ileft)[1]
                x == Head(ileft)[2]
            IN /\ Len(ich[d]) < 2
               /\ ich' = [ich EXCEPT ![d] = (IF Way = "swap" /\ Len(@) = 1 THEN <<x>> \o @ ELSE Append(@, x))]
         /\ ileft' = Tail(ileft) /\ UNCHANGED <<net, wch, wleft, fed, out>>
GetW == \E d \in E : /\ wch[d] # <<>> /\ wch' = [wch EXCEPT ![d] = Tail(@)]
                     /\ net' = [net EXCEPT ![d] = LoadRow(@, 1, Head(wch[d])[1], 1, Head(wch[d])[2])]
                     /\ UNCHANGED <<ich, wleft, ileft, fed, out>>
GetI == \E d \in E : /\ ich[d] # <<>> /\ ich' = [ich EXCEPT ![d] = Tail(@)]
                     /\ net' = [net EXCEPT ![d] = IF Way = "full" /\ Len(@.prog) = 3 THEN @ ELSE LoadInst(@, Head(ich[d]))]
                     /\ UNCHANGED <<wch, wleft, ileft, fed, out>>
AllThere == \A d \in E : wch[d] = <<>> /\ ich[d] = <<>> /\ wleft = <<>> /\ ileft = <<>>
Item(d, k) == X(((k - 1) \div 2) + 1, (((k - 1) % 2) * 2) + d)
Feed2 == /\ AllThere
         /\ \E d \in 1..2 : fed[d] < 2 * Inputs /\ fed' = [fed EXCEPT ![d] = @ + 1] /\ net' = Give(net, d, Item(d, fed[d] + 1))
         /\ UNCHANGED <<wch, ich, wleft, ileft, out>>
Safe(e) == CanRun(e) /\ Head(e.prog).raddr \in DOMAIN e.mem /\ (Head(e.prog).accum_en = 1 => Head(e.prog).accum \in DOMAIN e.acc)
Work == \E d \in E : /\ Safe(net[d])
                     /\ LET s == After(net, d, IF Way = "uncut" THEN 0 ELSE Bits)
                        IN /\ net' = (IF Way = "once" THEN [s[1] EXCEPT ![d].prog = SubSeq(@, 1, Len(@) - 1)] ELSE s[1])
                           /\ out' = out \o s[2]
                     /\ UNCHANGED <<wch, ich, wleft, ileft, fed>>
Next == SendW \/ SendI \/ GetW \/ GetI \/ Feed2 \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == Len(out) <= Inputs /\ \A t \in DOMAIN out : out[t] = Want(t)
Done == <>[](Len(out) = Inputs)
==============================================================================
