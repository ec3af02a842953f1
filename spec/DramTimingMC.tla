----------------------------- MODULE DramTimingMC ---------------------------
(* A controller that keeps, per bank, the earliest cycle of every command    *)
(* and the list of recent activates, against DramTiming: whatever it issues  *)
(* is legal, and legality in turn keeps bursts on the data bus apart, leaves *)
(* rows open until their data moved and spaces activates and refreshes.      *)
EXTENDS DramTiming, TLC
CONSTANTS Dev, Rows, M, T
D == IF Dev = "groups" THEN [proto |-> "DDR4", R |-> 1, G |-> 2, K |-> 1, BL |-> 4, AL |-> 0, CL |-> 2, CWL |-> 1, tRCD |-> 1, tRCDRD |-> -1, tRCDWR |-> -1, tRP |-> 1, tRAS |-> 2, tRFC |-> 3, tRFCb |-> 2,
                  tRRD_S |-> 1, tRRD_L |-> 2, tWTR_S |-> 0, tWTR_L |-> 1, tFAW |-> 7, t32AW |-> -1, tWR |-> 1, tRTP |-> 1, tRTP_L |-> -1, tCCD_S |-> 2, tCCD_L |-> 3, tPPD |-> -1, tRTRS |-> 1, tXS |-> 3, tCKESR |-> 2, dual |-> FALSE]
     ELSE IF Dev = "ranks" THEN [proto |-> "DDR3", R |-> 2, G |-> 1, K |-> 1, BL |-> 2, AL |-> 0, CL |-> 1, CWL |-> 1, tRCD |-> 1, tRCDRD |-> -1, tRCDWR |-> -1, tRP |-> 1, tRAS |-> 2, tRFC |-> 2, tRFCb |-> 1,
                  tRRD_S |-> 1, tRRD_L |-> 1, tWTR_S |-> 1, tWTR_L |-> -1, tFAW |-> 7, t32AW |-> -1, tWR |-> 1, tRTP |-> 1, tRTP_L |-> -1, tCCD_S |-> 1, tCCD_L |-> -1, tPPD |-> -1, tRTRS |-> 1, tXS |-> 2, tCKESR |-> 1, dual |-> FALSE]
     ELSE [proto |-> "DDR3", R |-> 1, G |-> 1, K |-> 2, BL |-> 2, AL |-> 1, CL |-> 1, CWL |-> 1, tRCD |-> 2, tRCDRD |-> -1, tRCDWR |-> -1, tRP |-> 1, tRAS |-> 2, tRFC |-> 2, tRFCb |-> 2,
                  tRRD_S |-> 1, tRRD_L |-> 1, tWTR_S |-> 1, tWTR_L |-> -1, tFAW |-> 9, t32AW |-> -1, tWR |-> 1, tRTP |-> 1, tRTP_L |-> -1, tCCD_S |-> 1, tCCD_L |-> -1, tPPD |-> -1, tRTRS |-> 1, tXS |-> 2, tCKESR |-> 1, dual |-> FALSE]
Kinds == {"ACT", "PRE", "RD", "WR", "RDA", "WRA", "REF", "REFB"}
Banks == 1..NB(D)
RankOf(i) == (i - 1) \div (D.G * D.K)
GroupIn(i) == ((i - 1) \div D.K) % D.G
KIn(i) == (i - 1) % D.K
VARIABLES now, s, e, open, faw, busy, bad, data, acts
vars == <<now, s, e, open, faw, busy, bad, data, acts>>
Init == /\ now = 0 /\ s = Start(D) /\ e = [i \in Banks |-> [c \in Kinds |-> 0]] /\ open = [i \in Banks |-> -1]
        /\ faw = [r \in 0..D.R - 1 |-> <<>>] /\ busy = FALSE /\ bad = FALSE /\ data = {} /\ acts = [r \in 0..D.R - 1 |-> <<>>]
(* separation from command c of bank i to command n of bank j; 0 = none *)
Sep(c, i, n, j) ==
  LET where == IF RankOf(i) # RankOf(j) THEN "o" ELSE IF GroupIn(i) = GroupIn(j) THEN "g" ELSE "r"
      k1 == IF c \in {"RD", "RDA"} THEN "R" ELSE "W"
      k2 == IF n \in {"RD", "RDA"} THEN "R" ELSE "W"
      RRD == IF where = "g" THEN Long(D, D.tRRD_L, D.tRRD_S) ELSE V(D.tRRD_S)
  IN IF IsCol(c) /\ IsCol(n) THEN ColGap(D, k1, k2, where)
     ELSE IF IsCol(c) /\ i = j THEN
       (IF c = "RD" THEN (IF n = "PRE" THEN RTP(D) ELSE 0)
        ELSE IF c = "WR" THEN (IF n = "PRE" THEN WTP(D) ELSE 0)
        ELSE IF c = "RDA" THEN (IF n \in {"ACT", "REF", "REFB"} THEN RTP(D) + V(D.tRP) ELSE 0)
        ELSE (IF n \in {"ACT", "REF", "REFB"} THEN WTP(D) + V(D.tRP) ELSE 0))
     ELSE IF c = "ACT" /\ i = j THEN
       (IF n \in {"ACT", "REF", "REFB"} THEN RC(D) ELSE IF n = "PRE" THEN V(D.tRAS)
        ELSE IF n \in {"RD", "RDA"} THEN RCDr(D) ELSE RCDw(D))
     ELSE IF c = "ACT" /\ where # "o" /\ n \in {"ACT", "REFB"} THEN RRD
     ELSE IF c = "PRE" /\ i = j /\ n \in {"ACT", "REF", "REFB"} THEN V(D.tRP)
     ELSE IF c = "REFB" /\ i = j /\ n \in {"ACT", "REF", "REFB"} THEN V(D.tRFCb)
     ELSE IF c = "REFB" /\ where # "o" /\ n = "ACT" THEN RRD
     ELSE IF c = "REFB" /\ where # "o" /\ n = "REFB" THEN V(D.tRFCb)
     ELSE IF c = "REF" /\ where # "o" /\ n \in {"ACT", "REF", "REFB"} THEN V(D.tRFC)
     ELSE 0
SameRank(i) == {j \in Banks : RankOf(j) = RankOf(i)}
CanIssue(c, i, row) ==
  CASE c = "ACT" -> open[i] = -1 /\ now >= e[i]["ACT"] /\ (Len(faw[RankOf(i)]) < 4 \/ now >= faw[RankOf(i)][1])
    [] c = "PRE" -> open[i] # -1 /\ now >= e[i]["PRE"] /\ row = 0
    [] c = "REFB" -> open[i] = -1 /\ now >= e[i]["REFB"] /\ row = 0
    [] c = "REF" -> (\A j \in SameRank(i) : open[j] = -1 /\ now >= e[j]["REF"]) /\ row = 0 /\ i = RankOf(i) * D.G * D.K + 1
    [] OTHER -> open[i] = row /\ now >= e[i][c]
Trim(q) == IF q # <<>> /\ now >= q[1] THEN Tail(q) ELSE q
Last4(q) == IF Len(q) > 4 THEN SubSeq(q, Len(q) - 3, Len(q)) ELSE q
Issue(c, i, row) ==
  /\ ~busy /\ CanIssue(c, i, row) = TRUE
  /\ bad' = ~Legal(D, s, now, c, RankOf(i), GroupIn(i), KIn(i), row)
  /\ s' = After(D, s, now, c, RankOf(i), GroupIn(i), KIn(i), row)
  /\ e' = [j \in Banks |-> [n \in Kinds |-> Mx(e[j][n], now + Sep(c, i, n, j))]]
  /\ open' = [open EXCEPT ![i] = IF c = "ACT" THEN row ELSE IF c \in {"PRE", "RDA", "WRA"} THEN -1 ELSE @]
  /\ faw' = IF c = "ACT" THEN [faw EXCEPT ![RankOf(i)] = Append(Trim(@), now + D.tFAW)] ELSE faw
  /\ acts' = IF c = "ACT" THEN [acts EXCEPT ![RankOf(i)] = Last4(Append(@, now))] ELSE acts
  (* the cycles of the data bus this command claims *)
  /\ data' = LET from == now + (IF c \in {"RD", "RDA"} THEN RL(D) ELSE WL(D))
             IN IF IsCol(c) THEN {<<x[1], x[2]>> : x \in {y \in data : y[1] >= now}} \cup {<<t, x>> : t \in from..(from + Burst(D) - 1), x \in {<<now, i>>}} ELSE data
  /\ busy' = TRUE /\ UNCHANGED now
Tick == now' = now + 1 /\ busy' = FALSE /\ UNCHANGED <<s, e, open, faw, bad, data, acts>>
Next == Tick \/ \E c \in Kinds, i \in Banks, row \in Rows : Issue(c, i, row)
Spec == Init /\ [][Next]_vars
Sound == ~bad
(* two bursts never share a cycle of the data bus *)
BusFree == \A x, y \in data : x[1] = y[1] => x = y
Agree == \A i \in Banks : open[i] = s.b[i].row
Age(t) == IF now - t > M THEN M + 1 ELSE now - t
Bound == now <= T
View == <<[i \in Banks |-> [f \in {"row", "act", "pre", "rd", "wr", "ref"} |-> IF f = "row" THEN s.b[i].row ELSE Age(s.b[i][f])]],
          [i \in 1..NG(D) |-> [f \in {"act", "R", "W", "pre"} |-> Age(s.g[i][f])]],
          [r \in 1..D.R |-> <<[k \in 1..Len(Last4(s.r[r].acts)) |-> Age(Last4(s.r[r].acts)[k])], Age(s.r[r].ref)>>],
          [i \in Banks |-> [c \in Kinds |-> IF e[i][c] <= now THEN 0 ELSE e[i][c] - now]], open,
          [r \in 0..D.R - 1 |-> [k \in 1..Len(faw[r]) |-> Age(faw[r][k])]], busy, bad, {<<x[1] - now, x[2][2]>> : x \in {y \in data : y[1] >= now}}>>
=============================================================================
