------------------------------- MODULE AddrMap -------------------------------
(* Where a memory channel keeps its words.  A location is                     *)
(* <<rank, group, bank, row, column>>; dims gives how many there are of each. *)
EXTENDS Integers, Sequences, FiniteSets
InRange(dims, loc) == Len(loc) = 5 /\ \A i \in 1..5 : loc[i] >= 0 /\ loc[i] < dims[i]
Words(dims) == dims[1] * dims[2] * dims[3] * dims[4] * dims[5]
(* seen: <<word, location>> of every word asked for so far *)
OneToOne(seen, w, loc) == \A p \in seen : (p[1] = w) <=> (p[2] = loc)
MapOk(seen, dims, ch, w, chan, dch, loc) == w < Words(dims) /\ chan = ch /\ dch = ch /\ InRange(dims, loc) /\ OneToOne(seen, w, loc)
=============================================================================
