------------------------------- MODULE PortMapMC ------------------------------
(* A small module, the map written for it line by line, one line spoilt on the   *)
(* way or none, the map read back and the wrapper joined.  Way: "sound";         *)
(* "first" - the role of an interface follows the direction of its first line    *)
(* whatever the signal; "forgets" - the writer leaves out a plain port when an   *)
(* interface has just been written; "twice" - the reader takes a line twice;     *)
(* "anyrole" - the reader takes an interface with two roles; "swap" - the        *)
(* wrapper joins ports by their order instead of their name.                     *)
EXTENDS PortMap
CONSTANTS Plains, Itfs, Sigs, Widths, Way
VARIABLES ports, todo, lines, spoilt, pos, rd, joins, phase
vars == <<ports, todo, lines, spoilt, pos, rd, joins, phase>>
None == "none"
PlainPort(p, m, w) == [p |-> p, mode |-> m, w |-> w, kind |-> "", itf |-> "", s |-> "", exact |-> "2"]
Dir(role, s) == IF (s \in Forward["axis"]) = (role = "master") THEN "output" ELSE "input"
AxisPort(i, role, s) == [p |-> i \o s, mode |-> Dir(role, s), w |-> 1, kind |-> "axis", itf |-> i, s |-> s, exact |-> "2"]
Modes == {"input", "output"}
PlainChoice == [Plains -> {<<None, 1>>} \cup (Modes \X Widths)]
AxisChoice == [Itfs -> {<<None, {}>>} \cup ({"master", "slave"} \X (SUBSET Sigs \ {{}}))]
Ports(f, g) == {PlainPort(p, f[p][1], f[p][2]) : p \in {q \in Plains : f[q][1] # None}}
               \cup UNION {{AxisPort(i, g[i][1], s) : s \in g[i][2]} : i \in Itfs}
Init == ports = {} /\ todo = {} /\ lines = <<>> /\ spoilt = "no" /\ pos = 1 /\ rd = Reader /\ joins = {} /\ phase = "set"
Set == /\ phase = "set"
       /\ \E f \in PlainChoice, g \in AxisChoice : ports' = Ports(f, g) /\ (\A i \in Itfs : g[i][1] = None \/ HasRole(Ports(f, g), "axis", i)) = TRUE
       /\ todo' = ports' /\ phase' = "write" /\ UNCHANGED <<lines, spoilt, pos, rd, joins>>
RoleOf(x) == LET before == {lines[k] : k \in 1..Len(lines)}
                 same == {e \in before : e.kind = "axis" /\ e.itf = "axis_" \o x.itf}
             IN CASE Way = "first" /\ same # {} -> (CHOOSE e \in same : TRUE).role
                  [] Way = "first" -> (IF x.mode = "input" THEN "slave" ELSE "master")
                  [] OTHER -> Role(ports, "axis", x.itf)
LineOf(x) == IF x.kind = "" THEN [kind |-> "", p |-> x.p, mode |-> x.mode, w |-> x.w, to |-> x.p, role |-> "", itf |-> "", s |-> ""]
             ELSE [kind |-> "axis", p |-> x.p, mode |-> "", w |-> 0, to |-> "", role |-> RoleOf(x), itf |-> "axis_" \o x.itf, s |-> x.s]
Write == /\ phase = "write" /\ todo # {}
         /\ \E x \in todo : /\ todo' = todo \ {x}
                            /\ lines' = IF Way = "forgets" /\ x.kind = "" /\ lines # <<>> /\ lines[Len(lines)].kind = "axis" THEN lines ELSE Append(lines, LineOf(x))
         /\ UNCHANGED <<ports, spoilt, pos, rd, joins, phase>>
Ready == phase = "write" /\ todo = {} /\ phase' = "spoil" /\ UNCHANGED <<ports, todo, lines, spoilt, pos, rd, joins>>
(* what somebody edits the map to *)
Without(i) == [k \in 1..(Len(lines) - 1) |-> IF k < i THEN lines[k] ELSE lines[k + 1]]
Spoil == /\ phase = "spoil" /\ phase' = "read" /\ UNCHANGED <<ports, todo, pos, rd, joins>>
         /\ \/ spoilt' = "no" /\ UNCHANGED lines
            \/ \E i \in 1..Len(lines) : \/ lines' = Append(lines, lines[i]) /\ spoilt' = "twice"
                                        \/ lines[i].kind = "" /\ lines' = [lines EXCEPT ![i].w = 0] /\ spoilt' = "width"
                                        \/ lines[i].kind = "" /\ lines' = [lines EXCEPT ![i].mode = "wire"] /\ spoilt' = "mode"
                                        \/ lines[i].kind = "axis" /\ lines' = [lines EXCEPT ![i].role = "both"] /\ spoilt' = "role"
                                        \/ /\ lines[i].kind = "axis" /\ \E j \in 1..Len(lines) : j # i /\ lines[j].kind = "axis" /\ lines[j].itf = lines[i].itf
                                           /\ lines' = [lines EXCEPT ![i].role = IF @ = "master" THEN "slave" ELSE "master"] /\ spoilt' = "roles"
                                        \/ lines' = Without(i) /\ spoilt' = "shorter"
Take(r, e) == IF e.kind = "" THEN Plain(r, e.mode, e.w, e.p, e.to) ELSE Axi(r, e.kind, e.role, e.p, e.itf, e.s)
Blind(r, e) == LET x == [p |-> e.p, to |-> IF e.kind = "" THEN e.to ELSE e.itf \o "." \o e.s, mode |-> e.mode, w |-> e.w, kind |-> e.kind, role |-> e.role, itf |-> e.itf]
               IN [r EXCEPT !.mods["m"] = Append(@, x)]
Known(r, e) == \E x \in Range(r.mods["m"]) : x.p = e.p
Clash(r, e) == \E x \in Range(r.mods["m"]) : e.itf # "" /\ x.itf = e.itf /\ x.role # e.role
Careless(r, e) == \/ Way = "twice" /\ Known(r, e)
                  \/ Way = "anyrole" /\ Clash(r, e)
Open0 == phase = "read" /\ pos = 1 /\ "m" \notin DOMAIN rd.mods /\ rd' = OpenModule(rd, "m") /\ UNCHANGED <<ports, todo, lines, spoilt, pos, joins, phase>>
Read == /\ phase = "read" /\ "m" \in DOMAIN rd.mods /\ pos <= Len(lines) /\ pos' = pos + 1
        /\ rd' = (IF Careless(rd, lines[pos]) THEN Blind(rd, lines[pos]) ELSE Take(rd, lines[pos]))
        /\ UNCHANGED <<ports, todo, lines, spoilt, joins, phase>>
Verdict == /\ phase = "read" /\ "m" \in DOMAIN rd.mods /\ pos = Len(lines) + 1 /\ phase' = (IF rd.bad THEN "no" ELSE "wrap") /\ UNCHANGED <<ports, todo, lines, spoilt, pos, rd, joins>>
Wrap == /\ phase = "wrap" /\ phase' = "done"
        /\ LET q == rd.mods["m"] IN joins' = {[p |-> q[k].p, to |-> IF Way = "swap" THEN q[(k % Len(q)) + 1].to ELSE q[k].to] : k \in 1..Len(q)}
        /\ UNCHANGED <<ports, todo, lines, spoilt, pos, rd>>
Next == Set \/ Write \/ Ready \/ Spoil \/ Open0 \/ Read \/ Verdict \/ Wrap
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* the map holds each port once and gives interfaces their true role *)
MapIsTrue == phase = "spoil" =>
             /\ Len(lines) = Cardinality(ports)
             /\ \A x \in ports : \E k \in 1..Len(lines) : /\ lines[k].p = x.p
                   /\ IF x.kind = "" THEN PlainOk(x, lines[k].mode, lines[k].w, lines[k].to)
                      ELSE AxiOk(ports, x, lines[k].kind, lines[k].role, lines[k].itf, lines[k].s)
(* mistakes are noticed, and nothing else is taken for one *)
Verdicts == /\ phase = "no" => spoilt \notin {"no", "shorter"}
            /\ phase \in {"wrap", "done"} => spoilt \in {"no", "shorter"}
(* every port of the module is joined to what it should be, nothing twice *)
Joined == phase = "done" =>
          /\ spoilt = "no" => {j.p : j \in joins} = {x.p : x \in ports}
          /\ \A j, h \in joins : j.p = h.p \/ j.to = h.to => j = h
          /\ \A j \in joins : \A x \in ports : x.p = j.p => j.to = IF x.kind = "" THEN x.p ELSE "axis_" \o x.itf \o "." \o x.s
==============================================================================
