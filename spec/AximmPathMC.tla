----------------------------- MODULE AximmPathMC -----------------------------
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Shape, NFlits, Buf, Fifo, Obuf, MaxResp
VARIABLES pc, reg, busy, pki, inj, link, occ, own, ejf, cur, outq, shown, todo, wgot
R(s, n) == [w |-> FALSE, s |-> s, n |-> n]
W(s, n) == [w |-> TRUE, s |-> s, n |-> n]
(* shapes: 1 one requester, one responder; 2 two requesters, one responder; *)
(* 3 one requester, two responders                                          *)
MCReqs == IF Shape = 2 THEN {"q1", "q2"} ELSE {"q1"}
MCResps == IF Shape = 3 THEN {"s1", "s2"} ELSE {"s1"}
MCProg(q) == CASE Shape = 0 -> <<R("s1", 1), W("s1", 1)>>
               [] Shape = 1 -> <<R("s1", 2), W("s1", 2), R("s1", 1)>>
               [] Shape = 2 -> IF q = "q1" THEN <<R("s1", 1), W("s1", 1)>> ELSE <<W("s1", 1)>>
               [] Shape = 3 -> <<R("s2", 1), W("s1", 1), W("s2", 1)>>
               [] Shape = 4 -> <<R("s1", 2), R("s1", 2), W("s1", 2), W("s1", 1)>>
MCNF(k) == IF k \in {"w", "r"} THEN NFlits ELSE 1
INSTANCE AximmPath WITH Reqs <- MCReqs, Resps <- MCResps, Prog <- MCProg, NFof <- MCNF, B <- Buf, F <- Fifo, O <- Obuf, Slots <- MaxResp
=============================================================================
