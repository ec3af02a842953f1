----------------------------- MODULE DramTiming -----------------------------
(* When a command to a DRAM channel is legal: what the banks of a rank hold, *)
(* and how long ago what happened.  Times are cycles; a device is described  *)
(* by the raw values of its description, -1 where it gives none.             *)
EXTENDS Integers, Sequences, FiniteSets
LongAgo == -1000000
Mx(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
V(x) == IF x < 0 THEN 0 ELSE x
IsG(d) == d.proto \in {"GDDR5", "GDDR5X", "GDDR6"}
IsH(d) == d.proto \in {"HBM", "HBM2"}
Burst(d) == IF d.BL = 0 THEN 0
            ELSE IF d.proto = "GDDR5" THEN d.BL \div 4
            ELSE IF d.proto = "GDDR5X" THEN d.BL \div 8
            ELSE IF d.proto = "GDDR6" THEN d.BL \div 16
            ELSE d.BL \div 2
RL(d) == V(d.AL) + V(d.CL)
WL(d) == V(d.AL) + V(d.CWL)
(* values for the same bank group; a device with one group runs at the other *)
Long(d, l, s) == IF d.G = 1 THEN (IF s >= 0 THEN s ELSE V(l)) ELSE V(l)
RCDr(d) == IF IsG(d) \/ IsH(d) THEN V(d.tRCDRD) ELSE V(d.tRCD) - V(d.AL)
RCDw(d) == IF IsG(d) \/ IsH(d) THEN V(d.tRCDWR) ELSE V(d.tRCD) - V(d.AL)
RC(d) == V(d.tRAS) + V(d.tRP)
RTP(d) == V(d.AL) + (IF d.tRTP >= 0 THEN d.tRTP ELSE V(d.tRTP_L))
WTP(d) == WL(d) + Burst(d) + V(d.tWR)
PPD(d) == IF IsG(d) \/ d.proto = "LPDDR4" THEN V(d.tPPD) ELSE 0
(* between column commands: same group, same rank, other rank *)
ColGap(d, first, next, where) ==
  IF first = next
  THEN IF where = "g" THEN Mx(Burst(d), Long(d, d.tCCD_L, d.tCCD_S))
       ELSE IF where = "r" THEN Mx(Burst(d), V(d.tCCD_S))
       ELSE IF first = "R" THEN Burst(d) + V(d.tRTRS) ELSE Burst(d)
  ELSE IF first = "R" THEN RL(d) + Burst(d) - WL(d) + V(d.tRTRS)
  ELSE IF where = "g" THEN WL(d) + Burst(d) + Long(d, d.tWTR_L, d.tWTR_S)
  ELSE IF where = "r" THEN WL(d) + Burst(d) + V(d.tWTR_S)
  ELSE WL(d) + Burst(d) + V(d.tRTRS) - RL(d)

NB(d) == d.R * d.G * d.K
NG(d) == d.R * d.G
BankOf(d, r, g, k) == (r * d.G * d.K) + (g * d.K) + k + 1
GroupOf(d, r, g) == (r * d.G) + g + 1
BanksOfRank(d, r) == ((r * d.G * d.K) + 1)..((r + 1) * d.G * d.K)
RankOfGroup(d, i) == (i - 1) \div d.G

Start(d) == [b |-> [i \in 1..NB(d) |-> [row |-> -1, act |-> LongAgo, pre |-> LongAgo, rd |-> LongAgo, wr |-> LongAgo, ref |-> LongAgo]],
             g |-> [i \in 1..NG(d) |-> [act |-> LongAgo, R |-> LongAgo, W |-> LongAgo, pre |-> LongAgo]],
             r |-> [i \in 1..d.R |-> [acts |-> <<>>, ref |-> LongAgo, sref |-> FALSE, sre |-> LongAgo, srx |-> LongAgo]],
             bus |-> [t |-> LongAgo, row |-> FALSE, col |-> FALSE]]

IsCol(c) == c \in {"RD", "RDA", "WR", "WRA"}
(* one command per cycle; some devices take a row and a column command *)
BusOk(d, s, t, c) == IF s.bus.t < t THEN TRUE
                     ELSE s.bus.t = t /\ d.dual /\ (IF IsCol(c) THEN ~s.bus.col ELSE ~s.bus.row)
Window(acts, n, w, t) == Len(acts) < n \/ t >= acts[Len(acts) - n + 1] + w
ColOk(d, s, t, rd, r, g) ==
  LET next == IF rd THEN "R" ELSE "W" IN
  \A i \in 1..NG(d) :
    LET where == IF i = GroupOf(d, r, g) THEN "g" ELSE IF RankOfGroup(d, i) = r THEN "r" ELSE "o"
    IN t >= s.g[i].R + ColGap(d, "R", next, where) /\ t >= s.g[i].W + ColGap(d, "W", next, where)
(* a closed bank that recovered from whatever closed it *)
Idle(d, bk, t) == bk.row = -1 /\ t >= bk.pre + V(d.tRP) /\ t >= bk.ref + V(d.tRFCb)
Awake(d, rk, t) == ~rk.sref /\ t >= rk.ref + V(d.tRFC) /\ t >= rk.srx + V(d.tXS)

Legal(d, s, t, c, r, g, k, row) ==
  /\ r \in 0..d.R - 1
  /\ BusOk(d, s, t, c)
  /\ LET rk == s.r[r + 1] IN
     CASE c = "REF" -> Awake(d, rk, t) /\ \A i \in BanksOfRank(d, r) : Idle(d, s.b[i], t)
       [] c = "SRE" -> Awake(d, rk, t) /\ \A i \in BanksOfRank(d, r) : Idle(d, s.b[i], t)
       [] c = "SRX" -> rk.sref /\ t >= rk.sre + V(d.tCKESR)
       [] c \in {"ACT", "PRE", "REFB", "RD", "RDA", "WR", "WRA"} ->
            /\ g \in 0..d.G - 1 /\ k \in 0..d.K - 1
            /\ LET bk == s.b[BankOf(d, r, g, k)] IN
               CASE c = "ACT" -> /\ Idle(d, bk, t) /\ Awake(d, rk, t) /\ t >= bk.act + RC(d) /\ row >= 0
                                 /\ \A i \in 1..NG(d) : RankOfGroup(d, i) = r =>
                                      t >= s.g[i].act + (IF i = GroupOf(d, r, g) THEN Long(d, d.tRRD_L, d.tRRD_S) ELSE V(d.tRRD_S))
                                 /\ Window(rk.acts, 4, V(d.tFAW), t)
                                 /\ (IsG(d) => Window(rk.acts, 32, V(d.t32AW), t))
                 [] c = "PRE" -> /\ bk.row # -1 /\ ~rk.sref
                                 /\ t >= bk.act + V(d.tRAS) /\ t >= bk.rd + RTP(d) /\ t >= bk.wr + WTP(d)
                                 /\ \A i \in 1..NG(d) : RankOfGroup(d, i) = r => t >= s.g[i].pre + PPD(d)
                 [] c = "REFB" -> Idle(d, bk, t) /\ Awake(d, rk, t)
                 [] c \in {"RD", "RDA"} -> bk.row = row /\ row >= 0 /\ t >= bk.act + RCDr(d) /\ ColOk(d, s, t, TRUE, r, g)
                 [] OTHER -> bk.row = row /\ row >= 0 /\ t >= bk.act + RCDw(d) /\ ColOk(d, s, t, FALSE, r, g)
       [] OTHER -> FALSE

LastActs(q) == IF Len(q) > 32 THEN SubSeq(q, Len(q) - 31, Len(q)) ELSE q
Used(s, t, c) == [s EXCEPT !.bus = [t |-> t, row |-> ~IsCol(c) \/ (s.bus.t = t /\ s.bus.row), col |-> IsCol(c) \/ (s.bus.t = t /\ s.bus.col)]]
After(d, s0, t, c, r, g, k, row) ==
  LET s == Used(s0, t, c) IN
  IF c = "REF" THEN [s EXCEPT !.r[r + 1].ref = t]
  ELSE IF c = "SRE" THEN [s EXCEPT !.r[r + 1].sref = TRUE, !.r[r + 1].sre = t]
  ELSE IF c = "SRX" THEN [s EXCEPT !.r[r + 1].sref = FALSE, !.r[r + 1].srx = t]
  ELSE LET i == BankOf(d, r, g, k)
           j == GroupOf(d, r, g)
           bk == s.b[i]
       IN IF c = "ACT" THEN [s EXCEPT !.b[i].row = row, !.b[i].act = t, !.b[i].rd = LongAgo, !.b[i].wr = LongAgo, !.g[j].act = t, !.r[r + 1].acts = LastActs(Append(@, t))]
          ELSE IF c = "PRE" THEN [s EXCEPT !.b[i].row = -1, !.b[i].pre = t, !.g[j].pre = t]
          ELSE IF c = "REFB" THEN [s EXCEPT !.b[i].ref = t]
          ELSE IF c = "RD" THEN [s EXCEPT !.b[i].rd = t, !.g[j].R = t]
          ELSE IF c = "WR" THEN [s EXCEPT !.b[i].wr = t, !.g[j].W = t]
          (* auto-precharge closes the row as soon as an explicit one could *)
          ELSE IF c = "RDA" THEN [s EXCEPT !.b[i].row = -1, !.g[j].R = t, !.b[i].pre = MaxOf({t + RTP(d), bk.act + V(d.tRAS), bk.wr + WTP(d)})]
          ELSE [s EXCEPT !.b[i].row = -1, !.g[j].W = t, !.b[i].pre = MaxOf({t + WTP(d), bk.act + V(d.tRAS), bk.rd + RTP(d)})]
=============================================================================
