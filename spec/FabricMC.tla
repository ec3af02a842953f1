------------------------------ MODULE FabricMC ------------------------------
(* Exhaustive exploration of Fabric on small networks with a routing rule:   *)
(* every packet is delivered, in order, and the fabric never locks up.       *)
EXTENDS Fabric, TLC
CONSTANTS Big, Shape    \* "mesh": 2x2 mesh, x first; "line": 3 routers; "ring": one-way ring of 3 with a dateline; "deadlock": the ring without
Rings == {"ring", "deadlock"}
R == IF Shape = "mesh" THEN 4 ELSE 3

(* links: injection of router r = r+1, ejection = R+r+1, then the router links *)
Pairs == IF Shape = "mesh" THEN <<<<0,1>>, <<1,0>>, <<2,3>>, <<3,2>>, <<0,2>>, <<2,0>>, <<1,3>>, <<3,1>>>>
         ELSE IF Shape = "line" THEN <<<<0,1>>, <<1,0>>, <<1,2>>, <<2,1>>>>
         ELSE <<<<0,1>>, <<1,2>>, <<2,0>>>>
Src == [i \in 1..(2 * R + Len(Pairs)) |-> IF i <= R THEN -1 ELSE IF i <= 2 * R THEN i - R - 1 ELSE Pairs[i - 2 * R][1]]
Dst == [i \in 1..(2 * R + Len(Pairs)) |-> IF i <= R THEN i - 1 ELSE IF i <= 2 * R THEN -1 ELSE Pairs[i - 2 * R][2]]
Nod == [i \in 1..(2 * R + Len(Pairs)) |-> IF i <= R THEN i - 1 ELSE IF i <= 2 * R THEN i - R - 1 ELSE -1]

(* packets: <<source, destination, flits>> *)
Pk == IF Shape = "mesh" THEN <<<<0,3,IF Big THEN 2 ELSE 1>>, <<3,0,1>>, <<1,2,IF Big THEN 2 ELSE 1>>>>
      ELSE IF Shape = "line" THEN <<<<0,2,2>>, <<0,2,1>>, <<1,2,1>>>>
      ELSE <<<<0,2,IF Big THEN 2 ELSE 1>>, <<1,0,IF Big THEN 2 ELSE 1>>, <<2,1,1>>>>
Total == Pk[1][3] + Pk[2][3] + Pk[3][3]
Begin(p) == IF p = 1 THEN 0 ELSE IF p = 2 THEN Pk[1][3] ELSE Pk[1][3] + Pk[2][3]
PkOf(f) == CHOOSE p \in 1..Len(Pk) : f > Begin(p) /\ f <= Begin(p) + Pk[p][3]
Net == [src |-> Src, dst |-> Dst, node |-> Nod, buf |-> 1, vcs |-> IF Shape = "ring" THEN 2 ELSE 1,
        lo |-> <<0>>, hi |-> <<IF Shape = "ring" THEN 1 ELSE 0>>,
        ps |-> [p \in 1..Len(Pk) |-> Pk[p][1]], pd |-> [p \in 1..Len(Pk) |-> Pk[p][2]], pc |-> [p \in 1..Len(Pk) |-> 1],
        pn |-> [p \in 1..Len(Pk) |-> Pk[p][3]], hops |-> [p \in 1..Len(Pk) |-> 0], single |-> TRUE, bound |-> [p \in 1..Len(Pk) |-> 0],
        pk |-> [f \in 1..Total |-> PkOf(f)], ix |-> [f \in 1..Total |-> f - Begin(PkOf(f))]]

Next(r, d) ==   \* router after r on the way to d
  IF Shape = "mesh" THEN (IF r % 2 # d % 2 THEN (IF r % 2 = 0 THEN r + 1 ELSE r - 1) ELSE (IF r < d THEN r + 2 ELSE r - 2))
  ELSE IF Shape = "line" THEN (IF r < d THEN r + 1 ELSE r - 1)
  ELSE (r + 1) % R
Way(r, d) == IF r = d THEN R + r + 1 ELSE CHOOSE i \in (2 * R + 1)..Len(Src) : Src[i] = r /\ Dst[i] = Next(r, d)
(* dateline: channel 1 once the packet has to pass the end of the ring, channel 0 afterwards *)
VcFor(r, d) == IF Shape = "ring" /\ r # d /\ r > d THEN 1 ELSE 0

Unsent == {f \in DOMAIN at : at[f] # -1}
held == [f \in DOMAIN at |-> at[f]]

MCInit == FabInit(Net)
MCInject == \E f \in Unsent : at[f] = 0 /\ Inject(f, net.ps[net.pk[f]] + 1, 0)
(* a flit leaves a buffer only when those that came before it have left; the slot is then credited back at some time *)
FirstHere(f) == \A g \in DOMAIN at : (g # f /\ at[g] = at[f] /\ vc[g] = vc[f]) => (net.pk[g] # net.pk[f] \/ net.ix[g] > net.ix[f])
MCMove == \E f \in Unsent : at[f] > 0 /\ Dst[at[f]] # -1 /\ FirstHere(f)
            /\ Move(f, Way(Dst[at[f]], net.pd[net.pk[f]]), VcFor(Dst[at[f]], net.pd[net.pk[f]]))
Occupied(l, v) == Cardinality({f \in DOMAIN at : at[f] = l /\ vc[f] = v})
MCCredit == \E c \in DOMAIN use : use[c] > Occupied(c[1], c[2]) /\ Credit(c[1], c[2])
MCReceive == \E f \in Unsent : at[f] > 0 /\ Dst[at[f]] = -1 /\ FirstHere(f) /\ Receive(f, net.node[at[f]], vc[f], nh[f])
MCDone == AllOut /\ NoCreditMissing /\ UNCHANGED fabVars
MCNext == MCInject \/ MCMove \/ MCCredit \/ MCReceive \/ MCDone
MCSpec == MCInit /\ [][MCNext]_fabVars /\ WF_fabVars(MCInject \/ MCMove \/ MCCredit \/ MCReceive)
Delivered == <>[](AllOut /\ NoCreditMissing)
=============================================================================
