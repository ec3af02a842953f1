------------------------------- MODULE DlrmMC -------------------------------
(* Closed model: inputs are accepted while no request queue is full, requests *)
(* go to their channel one by one, vectors come back at any time (in order on *)
(* a channel), are gathered to words, dealt out to engines and multiplied.    *)
(* Way # "sound" is an implementation that goes wrong.                        *)
EXTENDS Dlrm, TLC
CONSTANTS Way, Asks, Prog, Engines, Inputs, Depth
(* channels an input asks (in order), gather programs with words of width 2 *)
A12 == <<1, 2>>
A11 == <<1, 1>>
A121 == <<1, 2, 1>>
S(f, lo, hi, pop) == [f |-> f, lo |-> lo, hi |-> hi, pop |-> pop]
P12 == <<<<S(1, 0, 0, 1), S(2, 0, 0, 1)>>, <<S(0, 0, 1, 0)>>>>
P11 == <<<<S(1, 0, 0, 1), S(1, 0, 0, 1)>>, <<S(0, 0, 1, 0)>>>>
P121 == <<<<S(1, 0, 1, 0)>>, <<S(1, 1, 1, 1), S(2, 0, 0, 1)>>, <<S(1, 0, 0, 1), S(0, 0, 0, 0)>>, <<S(0, 0, 1, 0)>>>>
Chs == 2
(* what is in memory: every vector different *)
Vec(c, a) == <<(10 * c) + a, 0 - ((10 * c) + a)>>
(* the address the k-th request of input t has *)
Addr(t, k) == (3 * t) + k
VARIABLES taken, req, fly, g, dealt, eq, out
vars == <<taken, req, fly, g, dealt, eq, out>>
Init == taken = 0 /\ req = [c \in 1..Chs |-> <<>>] /\ fly = [c \in 1..Chs |-> <<>>] /\ g = Gather0(Chs) /\ dealt = 0
        /\ eq = [e \in 1..Engines |-> <<>>] /\ out = <<>>
Of(c, t) == SelectSeq([k \in 1..Len(Asks) |-> <<Asks[k], Addr(t, k)>>], LAMBDA x : x[1] = c)
Cut(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Accept == /\ taken < Inputs /\ (Way = "full" \/ \A c \in 1..Chs : Len(req[c]) < Depth)
          /\ req' = [c \in 1..Chs |-> LET r == req[c] \o [k \in 1..Len(Of(c, taken + 1)) |-> Of(c, taken + 1)[k][2]]
                                      IN IF Way = "full" THEN Cut(r, Depth + 1) ELSE r]
          /\ taken' = taken + 1 /\ UNCHANGED <<fly, g, dealt, eq, out>>
Ask(c) == /\ req[c] # <<>> /\ fly' = [fly EXCEPT ![c] = Append(@, Head(req[c]))]
          /\ \/ req' = [req EXCEPT ![c] = Tail(@)]
             \/ Way = "again" /\ req' = req /\ Len(fly[c]) < 3
          /\ UNCHANGED <<taken, g, dealt, eq, out>>
Back(c) == \E i \in DOMAIN fly[c] :
             /\ i = 1 \/ Way = "reorder"
             /\ g' = Arrive(g, IF Way = "channel" /\ fly[c][i] % 2 = 1 THEN 1 ELSE c, Vec(c, fly[c][i]))
             /\ fly' = [fly EXCEPT ![c] = [j \in 1..(Len(@) - 1) |-> IF j < i THEN @[j] ELSE @[j + 1]]]
             /\ UNCHANGED <<taken, req, dealt, eq, out>>
May == IF Way = "once" THEN \A k \in DOMAIN GInst(Prog, g) : LET s == GInst(Prog, g)[k] IN s.f = 0 \/ g.q[s.f] # <<>>
       ELSE IF Way = "first" THEN LET s == GInst(Prog, g)[1] IN s.f = 0 \/ g.q[s.f] # <<>>
       ELSE Able(Prog, g)
(* a queue that is read while empty gives anything *)
Padded == [g EXCEPT !.q = [c \in 1..Chs |-> g.q[c] \o <<<<99, 99>>, <<99, 99>>>>]]
Trim(h) == [h EXCEPT !.q = [c \in 1..Chs |-> IF Len(h.q[c]) > 2 THEN SubSeq(h.q[c], 1, Len(h.q[c]) - 2) ELSE <<>>]]
Gather == /\ (May) = TRUE /\ dealt < Inputs * Len(Prog)
          /\ LET bad == Way \in {"once", "first"}
                 w == IF bad THEN Word(Prog, Padded) ELSE Word(Prog, g)
                 h == IF bad THEN Trim(Gathered(Prog, Padded)) ELSE Gathered(Prog, g)
                 to == IF Way = "deal" THEN 1 ELSE (dealt % Engines) + 1
             IN /\ g' = (IF Way = "keep" /\ dealt = 1 THEN [h EXCEPT !.q = g.q] ELSE h)
                /\ eq' = [eq EXCEPT ![to] = Append(@, w)]
          /\ dealt' = dealt + 1 /\ UNCHANGED <<taken, req, fly, out>>
(* an input is multiplied when all of its words are there *)
Ws == <<[r \in 1..2 |-> [c \in 1..(2 * Len(Prog)) |-> (3 * r) - (c * c)]]>>
Share == Len(Prog) \div Engines
Calc == /\ \A e \in 1..Engines : Len(eq[e]) >= (IF Way = "deal" THEN (IF e = 1 THEN Len(Prog) ELSE 0) ELSE Share)
        /\ out' = Append(out, Chain(Ws, IF Way = "deal" THEN FlattenSeq(SubSeq(eq[1], 1, Len(Prog)))
                                        ELSE FlattenSeq([i \in 1..Len(Prog) |-> eq[((i - 1) % Engines) + 1][((i - 1) \div Engines) + 1]])))
        /\ eq' = [e \in 1..Engines |-> IF Way = "deal" THEN (IF e = 1 THEN SubSeq(eq[1], Len(Prog) + 1, Len(eq[1])) ELSE <<>>)
                                       ELSE SubSeq(eq[e], Share + 1, Len(eq[e]))]
        /\ UNCHANGED <<taken, req, fly, g, dealt>>
Next == Accept \/ (\E c \in 1..Chs : Ask(c) \/ Back(c)) \/ Gather \/ Calc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
(* by the definition: gather from queues that hold what was asked for, input by input *)
RECURSIVE Full(_, _)
Full(h, t) == IF t = 0 THEN h ELSE
  LET b == Full(h, t - 1) IN FoldLeft(LAMBDA x, k : Arrive(x, Asks[k], Vec(Asks[k], Addr(t, k))), b, [k \in 1..Len(Asks) |-> k])
Words == RunTo(Prog, Full(Gather0(Chs), Inputs), <<>>, Inputs * Len(Prog))[2]
Want(t) == Chain(Ws, FlattenSeq(SubSeq(Words, ((t - 1) * Len(Prog)) + 1, t * Len(Prog))))
(* dealing all words to one engine is only wrong for the engines; it is told by the shares *)
Fair == \A e \in 1..Engines : Len(eq[e]) <= Share * Inputs
Right == /\ Len(out) <= Inputs /\ \A t \in DOMAIN out : t <= taken /\ out[t] = Want(t)
         /\ Fair
Done == <>(Len(out) = Inputs)
==============================================================================
