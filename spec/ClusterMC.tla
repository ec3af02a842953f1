------------------------------ MODULE ClusterMC ------------------------------
(* The loop that drives a simulation: devices finish and fail at their own       *)
(* clock, the loop looks at all of them between steps and stops.  Way: "sound";  *)
(* "any" - the first device done ends it; "first" - only the first device's      *)
(* status counts; "order" - devices are looked at one after the other, each      *)
(* once; "rare" - the loop looks too rarely; "spoilt" - a failure is forgotten   *)
(* when another device is done.                                                  *)
EXTENDS Cluster
CONSTANTS N, Period, MaxT, Way
VARIABLES t, s, fin, bad, code, seen, phase
vars == <<t, s, fin, bad, code, seen, phase>>
All == Of(N)
Init == t = 0 /\ s = [Fresh(N, [r \in All |-> "d"], Period) EXCEPT !.made = All] /\ fin = {} /\ bad = {} /\ code = 0 /\ seen = {} /\ phase = "run"
(* what the devices do at an edge of their clock *)
Edge == t % Period = 0
Act == /\ phase = "run" /\ Edge
       /\ \E D \in SUBSET (All \ fin) : \E F \in SUBSET All :
            /\ fin' = fin \cup D
            /\ bad' = (IF Way = "spoilt" /\ D # {} THEN {} ELSE bad) \cup F
            /\ s' = [s EXCEPT !.done = @ \cup D, !.failed = @ \cup F, !.last = IF D # {} THEN t ELSE @]
       /\ phase' = "look" /\ UNCHANGED <<t, code, seen>>
Idle == phase = "run" /\ ~Edge /\ phase' = "look" /\ UNCHANGED <<t, s, fin, bad, code, seen>>
Looks == CASE Way = "any" -> fin # {}
           [] Way = "order" -> seen \cup {CHOOSE r \in All \ seen : \A q \in All \ seen : r <= q} = All /\ fin # {}
           [] OTHER -> fin = All
Rare == Way = "rare" /\ t % (4 * Period) # 0
Look == /\ phase = "look"
        /\ IF ~Rare /\ Looks
           THEN /\ phase' = "over" /\ code' = (IF (Way = "first" /\ 1 \in bad) \/ (Way # "first" /\ bad # {}) THEN 1 ELSE 0)
                /\ UNCHANGED <<t, seen>>
           ELSE /\ t' = t + 1 /\ phase' = "run" /\ UNCHANGED code
                /\ seen' = IF Way = "order" /\ fin # {} THEN seen \cup {CHOOSE r \in All \ seen : \A q \in All \ seen : r <= q} ELSE seen
        /\ UNCHANGED <<s, fin, bad>>
(* devices are done some time *)
Force == t < MaxT
Next == (Act /\ (t + Period > MaxT => fin' = All)) \/ Idle \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == phase = "over" => EndOk(s, t) /\ ExitOk(End(s, t), code, Ceil(t, Period))
Still == phase # "over" => (s.done = All => t <= s.last + Period + 2 * Grain)
Ends == <>(phase = "over")
===============================================================================
