----------------------------- MODULE PortMapTrace -----------------------------
(* Modules given to the real scripts, the maps they wrote, verdicts on maps and  *)
(* the wrappers built, judged by PortMap.                                       *)
EXTENDS PortMap, Json, IOUtils, TLC
VARIABLES tid, l, decl, seen, cur, rd, got
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Step == l' = l + 1 /\ UNCHANGED tid
vars == <<tid, l, decl, seen, cur, rd, got>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ decl = [m \in {} |-> {}] /\ seen = [m \in {} |-> {}] /\ cur = "" /\ rd = Reader /\ got = {}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* what there is *)
TModule == More /\ Ev.e = "module" /\ decl' = With(decl, Ev.m, {}) /\ UNCHANGED <<seen, cur, rd, got>> /\ Step
TPort == /\ More /\ Ev.e = "port"
         /\ decl' = With(decl, Ev.m, decl[Ev.m] \cup {[p |-> Ev.p, mode |-> Ev.mode, w |-> Ev.w, kind |-> Ev.kind, itf |-> Ev.itf, s |-> Ev.s, exact |-> Ev.to]})
         /\ UNCHANGED <<seen, cur, rd, got>> /\ Step
(* the map written for it *)
TMapModule == More /\ Ev.e = "mapmodule" /\ Ev.m \in DOMAIN decl \ DOMAIN seen /\ seen' = With(seen, Ev.m, {}) /\ cur' = Ev.m /\ UNCHANGED <<decl, rd, got>> /\ Step
Is(p) == {x \in decl[cur] : x.p = p}
TMapPort == /\ More /\ Ev.e = "mapport" /\ cur # "" /\ (Ev.p \notin seen[cur] /\ \E x \in Is(Ev.p) : ~MustAxi(decl[cur], x) /\ PlainOk(x, Ev.mode, Ev.w, Ev.to)) = TRUE
            /\ seen' = [seen EXCEPT ![cur] = @ \cup {Ev.p}] /\ UNCHANGED <<decl, cur, rd, got>> /\ Step
TMapAxi == /\ More /\ Ev.e = "mapaxi" /\ cur # "" /\ (Ev.p \notin seen[cur] /\ \E x \in Is(Ev.p) : AxiOk(decl[cur], x, Ev.kind, Ev.role, Ev.itf, Ev.s)) = TRUE
           /\ seen' = [seen EXCEPT ![cur] = @ \cup {Ev.p}] /\ UNCHANGED <<decl, cur, rd, got>> /\ Step
TEnd == /\ More /\ Ev.e = "end" /\ (DOMAIN seen = DOMAIN decl /\ \A m \in DOMAIN decl : seen[m] = {x.p : x \in decl[m]}) = TRUE
        /\ cur' = "" /\ UNCHANGED <<decl, seen, rd, got>> /\ Step
(* a map read *)
Same == UNCHANGED <<decl, seen, cur, got>>
TRModule == More /\ Ev.e = "rmodule" /\ rd' = OpenModule(rd, Ev.m) /\ Same /\ Step
TRPlain == More /\ Ev.e = "rport" /\ rd' = Plain(rd, Ev.mode, Ev.w, Ev.p, Ev.to) /\ Same /\ Step
TRAxi == More /\ Ev.e = "raxi" /\ rd' = Axi(rd, Ev.kind, Ev.role, Ev.p, Ev.itf, Ev.s) /\ Same /\ Step
TRBad == More /\ Ev.e = "rbad" /\ rd' = Reject(rd) /\ Same /\ Step
TVerdict == More /\ Ev.e = "verdict" /\ ((Ev.w = 1) = ~rd.bad) = TRUE /\ UNCHANGED rd /\ Same /\ Step
(* the wrapper built of it *)
TJoin == More /\ Ev.e = "join" /\ ~rd.bad /\ (Ev.m \in DOMAIN rd.mods /\ JoinOk(rd, Ev.m, Ev.p, Ev.to)) = TRUE /\ Ev.p \notin got /\ got' = got \cup {Ev.p} /\ UNCHANGED <<decl, seen, cur, rd>> /\ Step
TMember == More /\ Ev.e = "member" /\ (MemberOk(rd, Ev.m, Ev.p, Ev.mode, Ev.w)) = TRUE /\ UNCHANGED rd /\ Same /\ Step
TInterface == More /\ Ev.e = "interface" /\ ([kind |-> Ev.kind, role |-> Ev.role, itf |-> Ev.itf] \in Interfaces(rd, Ev.m)) = TRUE /\ got' = got \cup {Ev.itf} /\ UNCHANGED <<decl, seen, cur, rd>> /\ Step
TBuilt == /\ More /\ Ev.e = "built" /\ (got = {x.p : x \in Range(rd.mods[Ev.m])} \cup {x.itf : x \in Interfaces(rd, Ev.m)}) = TRUE
          /\ got' = {} /\ UNCHANGED <<decl, seen, cur, rd>> /\ Step
TDone == l = Len(Traces[tid].ev) + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TModule \/ TPort \/ TMapModule \/ TMapPort \/ TMapAxi \/ TEnd \/ TRModule \/ TRPlain \/ TRAxi \/ TRBad \/ TVerdict \/ TJoin \/ TMember \/ TInterface \/ TBuilt \/ TDone]_vars
===============================================================================
