------------------------------- MODULE PortMap -------------------------------
(* From the ports of a Verilog module over a port map to a wrapper.             *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"axis", "aximm"}
(* signals driven by the requesting side *)
Forward == [axis |-> {"tvalid", "tdata", "tstrb", "tkeep", "tlast", "tid", "tdest", "tuser"},
            aximm |-> {"awvalid", "awid", "awaddr", "awlen", "awsize", "awburst", "awuser", "wvalid", "wid", "wdata", "wlast", "wuser", "bready",
                       "arvalid", "arid", "araddr", "arlen", "arsize", "arburst", "aruser", "rready"}]
(* A port is [p, mode, w, kind, itf, s, exact]; kind "" if it is no AXI signal.  *)
(* The interface is the requester's if its forward signals leave the module.    *)
Role(ports, kind, itf) ==
  LET f == {x \in ports : x.kind = kind /\ x.itf = itf /\ x.s \in Forward[kind]}
  IN IF \E x \in f : x.mode = "input" THEN "slave" ELSE "master"
HasRole(ports, kind, itf) == \E x \in ports : x.kind = kind /\ x.itf = itf /\ x.s \in Forward[kind]
Open == -3             \* a width left for the user to fill in
WidthOk(x, w) == CASE x.exact = "2" -> w = x.w
                   [] x.exact = "1" -> w = x.w \/ w = Open
                   [] OTHER -> w = Open
(* a line of the map describes port x of the module *)
PlainOk(x, mode, w, to) == mode = x.mode /\ WidthOk(x, w) /\ to = x.p
AxiOk(ports, x, kind, role, itf, s) == /\ x.kind = kind /\ kind \in Kinds /\ itf = kind \o "_" \o x.itf /\ s = x.s
                                       /\ role = Role(ports, kind, x.itf)
MustAxi(ports, x) == x.kind \in Kinds /\ HasRole(ports, x.kind, x.itf)
------------------------------------------------------------------------------
(* Reading a map, line by line.  mods: module -> sequence of entries.           *)
(* An entry is [p, to, mode, w, kind, role, itf]; mode and width of plain ones.  *)
Reader == [cur |-> "", mods |-> [m \in {} |-> <<>>], bad |-> FALSE]
Range(q) == {q[i] : i \in 1..Len(q)}
Reject(r) == [r EXCEPT !.bad = TRUE]
OpenModule(r, m) == IF m \in DOMAIN r.mods THEN Reject(r)
                    ELSE [r EXCEPT !.cur = m, !.mods = [x \in DOMAIN r.mods \cup {m} |-> IF x = m THEN <<>> ELSE r.mods[x]]]
Fits(r, e) == /\ r.cur # ""
              /\ \A x \in Range(r.mods[r.cur]) : x.p # e.p /\ x.to # e.to /\ (e.itf # "" /\ x.itf = e.itf => x.kind = e.kind /\ x.role = e.role)
Add(r, e) == IF Fits(r, e) THEN [r EXCEPT !.mods[r.cur] = Append(@, e)] ELSE Reject(r)
Plain(r, mode, w, p, to) == IF mode \in {"input", "output", "inout"} /\ w >= 1
                            THEN Add(r, [p |-> p, to |-> to, mode |-> mode, w |-> w, kind |-> "", role |-> "", itf |-> ""]) ELSE Reject(r)
Axi(r, kind, role, p, itf, s) == IF role \in {"master", "slave"}
                                 THEN Add(r, [p |-> p, to |-> itf \o "." \o s, mode |-> "", w |-> 0, kind |-> kind, role |-> role, itf |-> itf]) ELSE Reject(r)
(* the wrapper made of module m: port p of the module is joined to the wrapper's own *)
Entry(r, m, p) == CHOOSE x \in Range(r.mods[m]) : x.p = p
JoinOk(r, m, p, to) == p \in {x.p : x \in Range(r.mods[m])} /\ Entry(r, m, p).to = to
MemberOk(r, m, p, mode, w) == LET x == Entry(r, m, p) IN x.kind = "" /\ x.mode = mode /\ x.w = w
Interfaces(r, m) == {[kind |-> x.kind, role |-> x.role, itf |-> x.itf] : x \in {y \in Range(r.mods[m]) : y.kind # ""}}
==============================================================================
