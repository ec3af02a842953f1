------------------------------ MODULE AximmPath ------------------------------
(* The memory-mapped path as RAD-Sim builds it.  A requester adapter offers *)
(* one register per request channel, packetizes one of them at a time into  *)
(* an injection FIFO shared by the kinds; each kind has its own virtual     *)
(* channel; the responder adapter keeps an ejection FIFO per virtual        *)
(* channel, reassembles one packet at a time and puts complete beats into   *)
(* one output FIFO shared by the channels, whose head is shown to the       *)
(* module.  Responses return the same way.  A responder module takes a      *)
(* request only when it can hold its response.                              *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Reqs, Resps,
          Prog(_),    \* requester -> sequence of bursts [w |-> BOOLEAN, s |-> responder, n |-> beats]
          NFof(_),    \* flits per beat of a kind
          B, F, O,    \* fabric buffer per VC, adapter FIFO, output FIFO depths
          Slots       \* responses a responder can hold

ReqKinds == {"ar", "aw", "w"}
RespKinds == {"r", "b"}
Kinds == ReqKinds \cup RespKinds
Nodes == Reqs \cup Resps
Out(n) == IF n \in Reqs THEN ReqKinds ELSE RespKinds
In(n) == IF n \in Reqs THEN RespKinds ELSE ReqKinds

VARIABLES
  pc,    \* requester -> [kind |-> bursts (ar, aw) or beats (w) handed over so far]
  reg,   \* node -> [kind -> <<>> or <<beat>>] adapter input registers
  busy,  \* node -> kind being packetized or "-"
  pki,   \* node -> flits of that packet already produced
  inj,   \* node -> flits waiting for injection
  link,  \* <<source, kind>> -> flits in the fabric (order per VC is kept)
  occ,   \* <<dest, kind>> -> fabric buffer slots taken at the ejection port
  own,   \* <<dest, kind>> -> source whose packet holds the VC, or "-"
  ejf,   \* <<dest, kind>> -> ejection FIFO
  cur,   \* dest -> kind being reassembled or "-"
  outq,  \* dest -> complete beats waiting for the module
  shown, \* dest -> BOOLEAN
  todo,  \* responder -> responses still to be handed over, as beats
  wgot   \* <<responder, requester>> -> write-data beats seen

vars == <<pc, reg, busy, pki, inj, link, occ, own, ejf, cur, outq, shown, todo, wgot>>

Beat(k, s, d, n, l) == [k |-> k, s |-> s, d |-> d, n |-> n, l |-> l]
Flit(m, i) == [m |-> m, i |-> i]
Tl(f) == f.i = NFof(f.m.k)

Writes(q) == SelectSeq(Prog(q), LAMBDA b : b.w)
Reads(q) == SelectSeq(Prog(q), LAMBDA b : ~b.w)
RECURSIVE Beats(_, _)
Beats(bs, i) == IF i > Len(bs) THEN <<>> ELSE [j \in 1..bs[i].n |-> [s |-> bs[i].s, i |-> i, l |-> j = bs[i].n]] \o Beats(bs, i + 1)

Init ==
  /\ pc = [q \in Reqs |-> [k \in ReqKinds |-> 0]]
  /\ reg = [n \in Nodes |-> [k \in Kinds |-> <<>>]]
  /\ busy = [n \in Nodes |-> "-"]
  /\ pki = [n \in Nodes |-> 0]
  /\ inj = [n \in Nodes |-> <<>>]
  /\ link = [n \in Nodes |-> [k \in Kinds |-> <<>>]]
  /\ occ = [n \in Nodes |-> [k \in Kinds |-> 0]]
  /\ own = [n \in Nodes |-> [k \in Kinds |-> "-"]]
  /\ ejf = [n \in Nodes |-> [k \in Kinds |-> <<>>]]
  /\ cur = [n \in Nodes |-> "-"]
  /\ outq = [n \in Nodes |-> <<>>]
  /\ shown = [n \in Nodes |-> FALSE]
  /\ todo = [s \in Resps |-> <<>>]
  /\ wgot = [s \in Resps |-> 0]

Put(n, m) == reg[n][m.k] = <<>> /\ reg' = [reg EXCEPT ![n][m.k] = <<m>>]

(* a requester hands over its next address; write data only after theirs *)
HandAddr(q, k) ==
  LET bs == IF k = "ar" THEN Reads(q) ELSE Writes(q)
      i == pc[q][k] + 1 IN
  /\ k \in {"ar", "aw"}
  /\ i <= Len(bs)
  \* the next write address only after the data of the one before
  /\ k = "aw" => LET w == Beats(Writes(q), 1) IN pc[q]["w"] = Cardinality({j \in 1..Len(w) : w[j].i < i})
  /\ Put(q, Beat(k, q, bs[i].s, i, TRUE))
  /\ pc' = [pc EXCEPT ![q][k] = i]
  /\ UNCHANGED <<busy, pki, inj, link, occ, own, ejf, cur, outq, shown, todo, wgot>>

HandData(q) ==
  LET w == Beats(Writes(q), 1)
      i == pc[q]["w"] + 1 IN
  /\ i <= Len(w)
  /\ w[i].i <= pc[q]["aw"]
  /\ Put(q, Beat("w", q, w[i].s, i, w[i].l))
  /\ pc' = [pc EXCEPT ![q]["w"] = i]
  /\ UNCHANGED <<busy, pki, inj, link, occ, own, ejf, cur, outq, shown, todo, wgot>>

HandResp(s) ==
  /\ todo[s] # <<>>
  /\ Put(s, Head(todo[s]))
  /\ todo' = [todo EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<pc, busy, pki, inj, link, occ, own, ejf, cur, outq, shown, wgot>>

Packetize(n, k) ==
  /\ reg[n][k] # <<>>
  /\ busy[n] \in {"-", k}
  /\ Len(inj[n]) < F
  /\ LET m == reg[n][k][1]
         i == pki[n] + 1 IN
       /\ inj' = [inj EXCEPT ![n] = Append(@, Flit(m, i))]
       /\ IF i = NFof(k)
            THEN /\ busy' = [busy EXCEPT ![n] = "-"] /\ pki' = [pki EXCEPT ![n] = 0]
                 /\ reg' = [reg EXCEPT ![n][k] = <<>>]
            ELSE busy' = [busy EXCEPT ![n] = k] /\ pki' = [pki EXCEPT ![n] = i] /\ UNCHANGED reg
  /\ UNCHANGED <<pc, link, occ, own, ejf, cur, outq, shown, todo, wgot>>

Inject(n) ==
  /\ inj[n] # <<>>
  /\ LET f == Head(inj[n]) IN
       /\ Len(link[n][f.m.k]) < B
       /\ link' = [link EXCEPT ![n][f.m.k] = Append(@, f)]
  /\ inj' = [inj EXCEPT ![n] = Tail(@)]
  /\ UNCHANGED <<pc, reg, busy, pki, occ, own, ejf, cur, outq, shown, todo, wgot>>

Cross(n, k) ==
  /\ link[n][k] # <<>>
  /\ LET f == Head(link[n][k])
         d == f.m.d IN
       /\ own[d][k] = IF f.i = 1 THEN "-" ELSE n
       /\ occ[d][k] < B
       /\ Len(ejf[d][k]) < F
       /\ own' = [own EXCEPT ![d][k] = IF Tl(f) THEN "-" ELSE n]
       /\ occ' = [occ EXCEPT ![d][k] = @ + 1]
       /\ ejf' = [ejf EXCEPT ![d][k] = Append(@, f)]
  /\ link' = [link EXCEPT ![n][k] = Tail(@)]
  /\ UNCHANGED <<pc, reg, busy, pki, inj, cur, outq, shown, todo, wgot>>

Depacketize(d, k) ==
  /\ ejf[d][k] # <<>>
  /\ cur[d] \in {"-", k}
  /\ cur[d] = "-" => \E i \in 1..Len(ejf[d][k]) : Tl(ejf[d][k][i])
  /\ LET f == Head(ejf[d][k]) IN
       IF Tl(f)
         THEN /\ Len(outq[d]) < O
              /\ outq' = [outq EXCEPT ![d] = Append(@, f.m)]
              /\ cur' = [cur EXCEPT ![d] = "-"]
         ELSE cur' = [cur EXCEPT ![d] = k] /\ UNCHANGED outq
  /\ ejf' = [ejf EXCEPT ![d][k] = Tail(@)]
  /\ occ' = [occ EXCEPT ![d][k] = @ - 1]
  /\ UNCHANGED <<pc, reg, busy, pki, inj, link, own, shown, todo, wgot>>

Present(n) ==
  /\ ~shown[n] /\ outq[n] # <<>>
  /\ shown' = [shown EXCEPT ![n] = TRUE]
  /\ UNCHANGED <<pc, reg, busy, pki, inj, link, occ, own, ejf, cur, outq, todo, wgot>>

(* the responses that a request causes *)
Caused(m) ==
  LET q == m.s IN
  CASE m.k = "ar" -> [j \in 1..Reads(q)[m.n].n |-> Beat("r", m.d, q, m.n * 10 + j, j = Reads(q)[m.n].n)]
    [] m.k = "w" /\ m.l -> <<Beat("b", m.d, q, m.n, TRUE)>>
    [] OTHER -> <<>>

TakeReq(s) ==
  /\ shown[s]
  /\ LET m == Head(outq[s]) IN
       /\ Len(todo[s]) < Slots \/ Caused(m) = <<>>
       /\ todo' = [todo EXCEPT ![s] = @ \o Caused(m)]
       /\ wgot' = [wgot EXCEPT ![s] = IF m.k = "w" THEN @ + 1 ELSE @]
  /\ outq' = [outq EXCEPT ![s] = Tail(@)]
  /\ shown' = [shown EXCEPT ![s] = FALSE]
  /\ UNCHANGED <<pc, reg, busy, pki, inj, link, occ, own, ejf, cur>>

TakeResp(q) ==
  /\ shown[q]
  /\ outq' = [outq EXCEPT ![q] = Tail(@)]
  /\ shown' = [shown EXCEPT ![q] = FALSE]
  /\ UNCHANGED <<pc, reg, busy, pki, inj, link, occ, own, ejf, cur, todo, wgot>>

Finished ==
  /\ \A q \in Reqs : pc[q]["ar"] = Len(Reads(q)) /\ pc[q]["aw"] = Len(Writes(q)) /\ pc[q]["w"] = Len(Beats(Writes(q), 1))
  /\ \A n \in Nodes : inj[n] = <<>> /\ outq[n] = <<>> /\ \A k \in Kinds : reg[n][k] = <<>> /\ link[n][k] = <<>> /\ ejf[n][k] = <<>>
  /\ \A s \in Resps : todo[s] = <<>>
  /\ UNCHANGED vars

Next ==
  \/ \E q \in Reqs : HandData(q) \/ TakeResp(q) \/ \E k \in {"ar", "aw"} : HandAddr(q, k)
  \/ \E s \in Resps : HandResp(s) \/ TakeReq(s)
  \/ \E n \in Nodes : Inject(n) \/ Present(n) \/ \E k \in Kinds : Packetize(n, k) \/ Cross(n, k) \/ Depacketize(n, k)
  \/ Finished

Spec == Init /\ [][Next]_vars

Contiguous(s) ==
  \A i \in 1..Len(s) - 1 : IF Tl(s[i]) THEN s[i + 1].i = 1 ELSE s[i + 1].m = s[i].m /\ s[i + 1].i = s[i].i + 1
Wormhole == \A d \in Nodes, k \in Kinds : Contiguous(ejf[d][k]) /\ Contiguous(link[d][k])
Bounds == \A n \in Nodes : Len(inj[n]) <= F /\ Len(outq[n]) <= O /\ \A k \in Kinds : occ[n][k] = Len(ejf[n][k]) /\ occ[n][k] <= B

-----------------------------------------------------------------------------
Tails(s) == LET t == SelectSeq(s, Tl) IN [i \in 1..Len(t) |-> t[i].m]
Of(s, n, d, k) == SelectSeq(s, LAMBDA m : m.s = n /\ m.d = d /\ m.k = k)
InFlight(n, d, k) ==
  Of((IF shown[d] THEN Tail(outq[d]) ELSE outq[d]) \o Tails(ejf[d][k]) \o Tails(link[n][k]) \o Tails(inj[n]) \o reg[n][k], n, d, k)
Flows == {<<<<n, k>>, <<d, k>>>> : n \in Reqs, d \in Resps, k \in ReqKinds} \cup {<<<<n, k>>, <<d, k>>>> : n \in Resps, d \in Reqs, k \in RespKinds}
absChan == [f \in Flows |-> InFlight(f[1][1], f[2][1], f[1][2])]
ShownAt(n, k) == shown[n] /\ Head(outq[n]).k = k
absPres == [r \in Nodes \X Kinds |->
              IF ShownAt(r[1], r[2]) THEN LET m == Head(outq[r[1]]) IN <<(<<<<m.s, m.k>>, r>>), m>> ELSE <<>>]
absOut == [f \in Flows |-> Len(absChan[f]) + (IF absPres[f[2]] # <<>> /\ absPres[f[2]][1] = f THEN 1 ELSE 0)]
absAwq == [q \in Reqs |->
             LET ws == Writes(q)
                 w == Beats(ws, 1)
                 done == IF pc[q]["w"] = 0 THEN 0 ELSE IF w[pc[q]["w"]].l THEN w[pc[q]["w"]].i ELSE w[pc[q]["w"]].i - 1 IN
             [i \in 1..pc[q]["aw"] - done |-> ws[done + i].s]]
Abs == INSTANCE AximmNoc WITH chan <- absChan, pres <- absPres, out <- absOut, awq <- absAwq

NewBeats(q, k) ==
  CASE k = "w" -> LET w == Beats(Writes(q), 1) IN {Beat("w", q, w[i].s, i, w[i].l) : i \in 1..Len(w)}
    [] k = "aw" -> {Beat(k, q, Writes(q)[i].s, i, TRUE) : i \in 1..Len(Writes(q))}
    [] k = "ar" -> {Beat(k, q, Reads(q)[i].s, i, TRUE) : i \in 1..Len(Reads(q))}
RespBeats(s) == UNION {{todo[s][i] : i \in 1..Len(todo[s])}}
Fl(m) == <<<<m.s, m.k>>, <<m.d, m.k>>>>
AbsNext ==
  \/ \E q \in Reqs, k \in ReqKinds : \E m \in NewBeats(q, k) :
       CASE k = "ar" -> Abs!AcceptOther(Fl(m), m, 1000)
         [] k = "aw" -> Abs!AcceptAddress(Fl(m), m, 1000, q, m.d)
         [] k = "w" -> Abs!AcceptData(Fl(m), m, 1000, q, m.d, m.l)
  \/ \E s \in Resps : \E m \in RespBeats(s) : Abs!AcceptOther(Fl(m), m, 1000)
  \/ \E n \in Nodes : outq[n] # <<>> /\ LET m == Head(outq[n]) IN Abs!MmPresent(<<n, m.k>>, m)
  \/ \E n \in Nodes, k \in Kinds : Abs!MmTake(<<n, k>>)
Refines == [][AbsNext]_<<absChan, absPres, absOut, absAwq>>
=============================================================================
