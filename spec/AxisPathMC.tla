----------------------------- MODULE AxisPathMC -----------------------------
(* Two sender nodes (one with two ports on different virtual channels), one *)
(* receiver node with two ports.                                            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxK, NFlits, Buf, Fifo, Obuf, Guard, Small
VARIABLES sent, inq, pkc, inj, link, own, cred, wire, ejf, cur, got, crp, outq, shown
P == IF Small THEN {"a", "c"} ELSE {"a", "b", "c"}
MCSrc(p) == IF p = "c" THEN 2 ELSE 1
MCVc(p) == IF p = "b" THEN 2 ELSE 1
MCDst(r) == 1
MCDests(p) == IF p = "b" THEN {"y"} ELSE {"x", "y"}
INSTANCE AxisPath WITH Ports <- P, Recvs <- {"x", "y"}, SrcNode <- MCSrc, VcOf <- MCVc, DstNode <- MCDst, Dests <- MCDests,
   K <- MaxK, NF <- NFlits, B <- Buf, F <- Fifo, O <- Obuf, CreditGuard <- Guard
=============================================================================
