---------------------------- MODULE PlacementMC ----------------------------
(* Design of the resolution: lines are read one by one into lists of ports  *)
(* per node, the position in the list (per role) is the interface, and a    *)
(* base address carries node and NoC in its top bits.  Delivery looks the   *)
(* port up by node and interface.  Checked to refine Placement.             *)
EXTENDS Placement
CONSTANTS NPorts, NNocs, NNodes, Width, NodeFirst
VARIABLES list, todo, phase
mcvars == <<vars, list, todo, phase>>
P == 1..NPorts
Sites == (0..NNocs - 1) \X (0..NNodes - 1)
Pow(n) == 2 ^ n
Bits(n) == CHOOSE b \in 0..8 : Pow(b) >= n /\ \A c \in 0..b - 1 : Pow(c) < n
Base(noc, node) == IF NodeFirst THEN (node * Pow(Bits(NNocs)) + noc) * Pow(Width - Bits(NNocs) - Bits(NNodes))
                   ELSE (noc * Pow(Bits(NNodes)) + node) * Pow(Width - Bits(NNocs) - Bits(NNodes))
(* adapters read the node from the topmost bits *)
Decode(a) == a \div Pow(Width - Bits(NNodes))

MCInit ==
  /\ cfg \in [role : [P -> {"m", "s"}], kind : [P -> {"axis", "aximm"}], mod : {[p \in P |-> p % 2]}, pers : {<<1, 2>>}, w : {<<NNodes, NNodes>>}]
  /\ Init /\ list = [s \in Sites |-> <<>>] /\ todo = P /\ phase = "read"

Read == \E p \in todo, s \in Sites :
  /\ phase = "read" /\ PortLine(p, s[1], s[2], Kind(p))
  /\ list' = [list EXCEPT ![s] = Append(@, p)]
  /\ todo' = todo \ {p} /\ UNCHANGED phase
ReadMod == \E m \in {0, 1}, s \in Sites, k \in {"axis", "aximm"} :
  LET new == {p \in todo : cfg.mod[p] = m /\ Kind(p) = k}
      sl == SelectSeq([i \in 1..NPorts |-> i], LAMBDA p : p \in new /\ cfg.role[p] = "s")
      ml == SelectSeq([i \in 1..NPorts |-> i], LAMBDA p : p \in new /\ cfg.role[p] = "m") IN
  /\ phase = "read" /\ ModuleLine(m, s[1], s[2], k)
  /\ list' = [list EXCEPT ![s] = @ \o sl \o ml]
  /\ todo' = todo \ new /\ UNCHANGED phase
Pos(p) == LET s == SelectSeq(list[at[p]], LAMBDA q : cfg.role[q] = cfg.role[p]) IN CHOOSE i \in 1..Len(s) : s[i] = p
MPublish == \E p \in P :
  /\ todo = {} /\ phase' = "run"
  /\ (\A q \in P : q < p => q \in DOMAIN pub) = TRUE
  /\ Publish(p, at[p][1], at[p][2], Pos(p) - 1, Base(at[p][1], at[p][2]))
  /\ UNCHANGED <<list, todo>>
(* the port found at that node and interface *)
Reached(noc, node, kind, itf) ==
  IF node \notin 0..NNodes - 1 THEN 0
  ELSE LET s == SelectSeq(list[<<noc, node>>], LAMBDA q : cfg.role[q] = "s" /\ Kind(q) = kind) IN
       IF itf + 1 \in 1..Len(s) THEN s[itf + 1] ELSE 0
To(q, d) == IF Kind(d) = "axis" THEN Reached(at[q][1], at[d][2], "axis", pub[d].itf) ELSE Reached(at[q][1], Decode(pub[d].base), "aximm", 0)
MSend == \E q, d \in P :
  /\ DOMAIN pub = P /\ ~\E k \in DOMAIN cnt : TRUE
  /\ Send(q, d, q) /\ UNCHANGED <<list, todo, phase>>
MNext == Read \/ ReadMod \/ MPublish \/ MSend
MCSpec == MCInit /\ [][MNext]_mcvars
(* whoever sends to what d published reaches d *)
Reaches == DOMAIN pub = P => \A q, d \in P : (cfg.role[q] = "m" /\ cfg.role[d] = "s" /\ Kind(q) = Kind(d) /\ at[q][1] = at[d][1]) => To(q, d) = d
(* publishing never gets stuck: the chosen identifiers do tell ports apart *)
CanPublish == (todo = {} /\ DOMAIN pub # P) => ENABLED MPublish
=============================================================================
