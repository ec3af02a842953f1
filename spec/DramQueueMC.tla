----------------------------- MODULE DramQueueMC ----------------------------
(* A controller with a read queue, a write buffer that is drained when full, *)
(* and a command queue that reorders, against DramQueue: its commands and    *)
(* completions are the ones owed, and every request is eventually served.    *)
(* Waits: reads are scheduled while a buffered write waits for one of them.  *)
EXTENDS DramQueue
CONSTANTS Addrs, N, Cap, CmdCap, Waits, Dep
VARIABLES s, n, rq, wb, cq, drain, bad
vars == <<s, n, rq, wb, cq, drain, bad>>
Init == s = Fresh(1) /\ n = 0 /\ rq = <<>> /\ wb = <<>> /\ cq = <<>> /\ drain = 0 /\ bad = FALSE
Send == /\ n < N /\ n' = n + 1
        /\ \E a \in Addrs, w \in {0, 1} :
             /\ IF w = 1 THEN Len(wb) < Cap ELSE Len(rq) < Cap
             /\ s' = Accept(s, a, w, 0)
             /\ wb' = IF w = 1 /\ a \notin s.dirty THEN Append(wb, a) ELSE wb
             /\ rq' = IF w = 0 /\ a \notin s.dirty /\ ~Waiting(s, a) THEN Append(rq, a) ELSE rq
        /\ UNCHANGED <<cq, drain, bad>>
ToRead == rq # <<>> /\ cq' = Append(cq, <<Head(rq), 0>>) /\ rq' = Tail(rq) /\ UNCHANGED wb
(* the write buffer is drained from full to empty, other than for reads waiting *)
Sched == LET d == IF drain = 0 /\ Len(wb) >= Cap THEN Len(wb) ELSE drain IN
  /\ Len(cq) < CmdCap
  /\ IF d > 0 /\ wb # <<>>
     THEN IF Waiting(s, Head(wb)) THEN (IF Waits THEN ToRead ELSE (drain # 0 /\ UNCHANGED <<rq, wb, cq>>)) /\ drain' = 0
          ELSE cq' = Append(cq, <<Head(wb), 1>>) /\ wb' = Tail(wb) /\ drain' = d - 1 /\ UNCHANGED rq
     ELSE ToRead /\ drain' = 0
  /\ UNCHANGED <<s, n, bad>>
Issue == \E i \in 1..Len(cq) :
  /\ Dep => \A j \in 1..(i - 1) : cq[j][1] # cq[i][1]
  /\ IF cq[i][2] = 0 THEN bad' = (bad \/ ~CanRead(s, cq[i][1])) /\ s' = Read(s, cq[i][1], 0, 1)
     ELSE bad' = (bad \/ ~CanWrite(s, cq[i][1])) /\ s' = Write(s, cq[i][1])
  /\ cq' = Without(cq, i) /\ UNCHANGED <<n, rq, wb, drain>>
Report == \E a \in Addrs, w \in {0, 1} : CanDone(s, a, w, 1) /\ s' = Done(s, a, w, 1) /\ UNCHANGED <<n, rq, wb, cq, drain, bad>>
Next == Send \/ Sched \/ Issue \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Sched) /\ WF_vars(Issue) /\ WF_vars(Report)
Sound == ~bad /\ Room(s, Cap + CmdCap)
Served1 == s.rd = <<>> /\ s.fwd = <<>> /\ s.ready = <<>> /\ s.wack = <<>>
AllServed == (n = N) ~> (Served1)
=============================================================================
