------------------------------- MODULE ConfigMC -------------------------------
(* A generator that reads the sections of a description one by one, in any      *)
(* order, into a table of device settings and a table of shared widths, judged   *)
(* by Config for every small description.  Way: "sound"; "last" - a width is     *)
(* what the last section says; "first" - shared settings win over a device's     *)
(* own when they come later; "default" - a device's own setting is forgotten     *)
(* when another one sets the same parameter.                                     *)
EXTENDS Config, TLC
CONSTANTS Way, Configs, MaxRads, Vals
P == "noc_vc_buffer_size"        \* a setting of each NoC
W == "noc_packet_id_width"       \* a width all devices share
Y == "noc_payload_width"         \* a width of each device, the widest counts
Scopes == {"all"} \cup Configs
Keys == Scopes \X {P, W, Y}
VARIABLES ph, user, rads, todo, dev, all
vars == <<ph, user, rads, todo, dev, all>>
Num(n) == I(n, ToString(n))
Table == [c \in Scopes |-> [p \in {P, Y} |-> 0]]
Init == ph = "start" /\ user = [x \in {} |-> 0] /\ rads = <<>> /\ todo = {} /\ dev = Table /\ all = 0
(* a user sets W in one way only: shared, or per device *)
Sane(u) == ~(<<"all", W>> \in DOMAIN u /\ \E c \in Configs : <<c, W>> \in DOMAIN u)
Ask == /\ ph = "start"
       /\ \E D \in SUBSET Keys : \E u \in [D -> Vals] : \E m \in 1..MaxRads : \E a \in [1..m -> Configs] :
            /\ Sane(u)
            /\ user' = [x \in D \cup {<<"cluster", "cluster_configs">>, <<"cluster", "num_rads">>} |->
                         IF x = <<"cluster", "cluster_configs">> THEN [v |-> a, n |-> [i \in 1..m |-> 0]]
                         ELSE IF x = <<"cluster", "num_rads">> THEN Num(m) ELSE Num(u[x])]
            /\ rads' = a /\ todo' = Scopes
       /\ ph' = "read" /\ UNCHANGED <<dev, all>>
Has(s, p) == <<s, p>> \in DOMAIN user
Val(s, p) == user[<<s, p>>].n[1]
Entry(s, p) == IF ~Has(s, p) THEN dev[s][p]
               ELSE IF Way = "default" /\ \E c \in Configs : dev[c][p] # 0 THEN 0 ELSE Val(s, p)
Read == /\ ph = "read" /\ todo # {}
        /\ \E s \in todo :
             /\ todo' = todo \ {s}
             /\ dev' = [c \in Scopes |-> [p \in {P, Y} |->
                          IF c = s THEN Entry(s, p)
                          ELSE IF Way = "first" /\ s = "all" /\ Has(s, p) THEN Val(s, p)
                          ELSE dev[c][p]]]
             /\ all' = IF ~Has(s, W) THEN all ELSE IF Way = "last" THEN Val(s, W) ELSE Max(all, Val(s, W))
        /\ UNCHANGED <<ph, user, rads>>
Written == ph = "read" /\ todo = {} /\ ph' = "written" /\ UNCHANGED <<user, rads, todo, dev, all>>
Next == Ask \/ Read \/ Written
Spec == Init /\ [][Next]_vars
(* what is written *)
Out(c, p) == IF dev[c][p] # 0 THEN dev[c][p] ELSE IF dev["all"][p] # 0 THEN dev["all"][p] ELSE ByName[p].n[1]
Wide == LET s == {Out(rads[r], Y) : r \in 1..Len(rads)} IN CHOOSE x \in s : \A y \in s : y <= x
Id == IF all = 0 THEN Shared[W] ELSE all
Faithful == ph = "written" => /\ \A r \in 1..Len(rads) : KnobOk(user, r, P, Num(Out(rads[r], P))) /\ KnobOk(user, r, Y, Num(Out(rads[r], Y)))
                              /\ WidthOk(user, [NOC_LINKS_PAYLOAD_WIDTH |-> Wide, NOC_LINKS_PACKETID_WIDTH |-> Id], "NOC_LINKS_PAYLOAD_WIDTH")
                              /\ WidthOk(user, [NOC_LINKS_PAYLOAD_WIDTH |-> Wide, NOC_LINKS_PACKETID_WIDTH |-> Id], "NOC_LINKS_PACKETID_WIDTH")
                              /\ Acceptable(user, FALSE, Configs)
===============================================================================
