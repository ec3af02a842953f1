------------------------------- MODULE Cluster -------------------------------
(* A simulation of a cluster, run several times: when it ends, what status it   *)
(* leaves, and that every run is the same.  Times in picoseconds.               *)
EXTENDS Integers, Sequences
CONSTANTS Grain         \* the simulator looks at the devices this often
Of(n) == 1..n
(* one run: devices n, the design each should be, and what has happened so far *)
Fresh(n, want, period) == [n |-> n, want |-> want, period |-> period, made |-> {}, done |-> {}, failed |-> {}, last |-> 0, end |-> -1, code |-> -1]
MakeOk(s, r, d) == r \in Of(s.n) /\ r \notin s.made /\ s.want[r] = d /\ s.end = -1
DoneOk(s, r, t) == r \in Of(s.n) /\ r \notin s.done /\ s.made = Of(s.n) /\ t >= s.last /\ s.end = -1
FailOk(s, r, t) == r \in Of(s.n) /\ s.end = -1
EndOk(s, t) == s.end = -1 /\ s.done = Of(s.n) /\ t + Grain >= s.last /\ t <= s.last + s.period + 2 * Grain
Ceil(a, b) == (a + b - 1) \div b
ExitOk(s, code, cycles) == /\ s.end # -1 /\ s.code = -1 /\ code >= 0
                           /\ (code # 0) = (s.failed # {})
                           /\ cycles \in Ceil(s.end - Grain, s.period)..Ceil(s.end + Grain, s.period)
Make(s, r) == [s EXCEPT !.made = @ \cup {r}]
Done(s, r, t) == [s EXCEPT !.done = @ \cup {r}, !.last = t]
Fail(s, r) == [s EXCEPT !.failed = @ \cup {r}]
End(s, t) == [s EXCEPT !.end = t]
Exit(s, code) == [s EXCEPT !.code = code]
Complete(s) == s.code # -1
(* what a run shows at each step must be what the first run showed *)
SameOk(first, ref, pos, x) == first \/ (pos <= Len(ref) /\ ref[pos] = x)
EndSame(first, ref, pos) == first \/ pos = Len(ref) + 1
===============================================================================
