------------------------------- MODULE AddrMapMC -------------------------------
(* Field-wise rearrangement: the controller reads its fields off an address in  *)
(* a fixed order and lays them out in the order the device asks for; the DRAM   *)
(* reads them off again.  For every order and every field width that is one-to- *)
(* one, onto and never leaves the channel.                                      *)
EXTENDS AddrMap
CONSTANTS MaxW, Drop
Names == {"ch", "ra", "bg", "ba", "ro", "co"}
(* the controller's order of the fields of a word address, least first *)
Fixed == <<"co", "ba", "ro", "bg", "ra">>
VARIABLES order, width, ch, set
vars == <<order, width, ch, set>>
Orders == {f \in [1..6 -> Names] : \A i, j \in 1..6 : i # j => f[i] # f[j]}
P2(n) == 2 ^ n
Init == order \in Orders /\ width = [n \in Names |-> 0] /\ ch = 0 /\ set = FALSE
Set == /\ ~set /\ set' = TRUE /\ UNCHANGED order
       /\ width' \in [Names -> 0..MaxW] /\ ch' \in {0, P2(width'["ch"]) - 1}
(* position of a field in a sequence of fields, least first *)
Pos(s, n) == LET i == CHOOSE i \in 1..Len(s) : s[i] = n
                 f[k \in 0..6] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF k < i THEN width[s[k]] ELSE 0)
             IN f[Len(s)]
Field(s, a, n) == (a \div P2(Pos(s, n))) % P2(width[n])
(* orders name the most significant field first *)
Lay == [i \in 1..6 |-> order[7 - i]]
Sum(f) == f["ch"] + f["ra"] + f["bg"] + f["ba"] + f["ro"] + f["co"]
Place(a) == Sum([n \in Names |-> P2(Pos(Lay, n)) * (IF n = "ch" THEN ch ELSE IF n = Drop THEN 0 ELSE Field(Fixed, a, n))])
Dims == <<P2(width["ra"]), P2(width["bg"]), P2(width["ba"]), P2(width["ro"]), P2(width["co"])>>
Loc(b) == <<Field(Lay, b, "ra"), Field(Lay, b, "bg"), Field(Lay, b, "ba"), Field(Lay, b, "ro"), Field(Lay, b, "co")>>
All == 0..(Words(Dims) - 1)
Sound == /\ \A a \in All : InRange(Dims, Loc(Place(a))) /\ Field(Lay, Place(a), "ch") = ch
         /\ Cardinality({Loc(Place(a)) : a \in All}) = Words(Dims)
Spec == Init /\ [][Set]_vars
=============================================================================
