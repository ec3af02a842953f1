------------------------------- MODULE MemCtrl ------------------------------
(* What a memory port promises.  Every word is a register: a read returns    *)
(* the value of the last write acknowledged when the read was issued, or of  *)
(* a write not acknowledged by then.  Within a clock edge requests come      *)
(* before responses.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
(* cur: acknowledged value of every word; waddr: words of accepted write     *)
(* bursts still without data, as <<word, last of its burst>>; wdata: data     *)
(* still without a word; live: writes complete but not acknowledged, as      *)
(* <<word, value, last, user>>; users: tags of write bursts in order;        *)
(* reads: read beats owed, in order                                          *)
Fresh(init) == [cur |-> init, waddr |-> <<>>, wdata |-> <<>>, live |-> <<>>, reads |-> <<>>]
Beats(ws) == [i \in 1..Len(ws) |-> <<ws[i], i = Len(ws)>>]
(* a new write may be seen by every read of its word still owed *)
Seen(rs, w, v) == [i \in 1..Len(rs) |-> IF rs[i].w = w THEN [rs[i] EXCEPT !.may = @ \cup {v}] ELSE rs[i]]
(* data and words of writes meet in order, however they arrive *)
Meet(s) == IF s.waddr = <<>> \/ s.wdata = <<>> THEN s
           ELSE LET n == IF Len(s.waddr) < Len(s.wdata) THEN Len(s.waddr) ELSE Len(s.wdata)
                    W(i) == s.waddr[i]
                    D(i) == s.wdata[i]
                    rs[i \in 0..n] == IF i = 0 THEN s.reads ELSE Seen(rs[i - 1], W(i)[1], D(i)[1])
                IN [s EXCEPT !.waddr = SubSeq(@, n + 1, Len(@)), !.wdata = SubSeq(@, n + 1, Len(@)),
                             !.live = @ \o [i \in 1..n |-> <<W(i)[1], D(i)[1], W(i)[2], D(i)[2]>>], !.reads = rs[n]]
WriteAddress(s, ws) == Meet([s EXCEPT !.waddr = @ \o Beats(ws)])
WriteData(s, v, u) == Meet([s EXCEPT !.wdata = Append(@, <<v, u>>)])
LiveOf(s, w) == {s.live[i][2] : i \in {j \in 1..Len(s.live) : s.live[j][1] = w}}
ReadAddress(s, ws, u) ==
  [s EXCEPT !.reads = @ \o [i \in 1..Len(ws) |-> [w |-> ws[i], u |-> u, last |-> i = Len(ws), may |-> {s.cur[ws[i]]} \cup LiveOf(s, ws[i])]]]
(* the oldest burst whose beats have all arrived *)
LastBeat(s) == {i \in 1..Len(s.live) : s.live[i][3]}
CanAck(s, u) == LastBeat(s) # {} /\ LET k == CHOOSE i \in LastBeat(s) : \A j \in LastBeat(s) : i <= j IN s.live[k][4] = u
Ack(s) == LET k == CHOOSE i \in LastBeat(s) : \A j \in LastBeat(s) : i <= j
              Latest(w) == {i \in 1..k : s.live[i][1] = w}
          IN [s EXCEPT !.live = SubSeq(@, k + 1, Len(@)),
                       !.cur = [w \in DOMAIN @ |-> IF Latest(w) = {} THEN @[w] ELSE s.live[CHOOSE i \in Latest(w) : \A j \in Latest(w) : j <= i][2]]]
CanReturn(s, v, u, last) == s.reads # <<>> /\ s.reads[1].u = u /\ s.reads[1].last = last /\ v \in s.reads[1].may
Return(s) == [s EXCEPT !.reads = Tail(@)]
Idle(s) == s.waddr = <<>> /\ s.wdata = <<>> /\ s.live = <<>> /\ s.reads = <<>>
=============================================================================
